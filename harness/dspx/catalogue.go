package main

import (
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
)

// f64 adapts processors of float64 blocks; its scratch is allocated once.
type f64 struct{ a, b, c, d []float64 }

func (f *f64) get(n int) {
	if len(f.a) < n {
		f.a, f.b, f.c, f.d = make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	}
}
func to64(d []float64, s []float32) []float64 {
	for i := range s {
		d[i] = float64(s[i])
	}
	return d[:len(s)]
}
func to32(d []float32, s []float64) {
	for i := range d {
		d[i] = float32(s[i])
	}
}
func newF64() *f64 { f := &f64{}; f.get(4096); return f }
func (f *f64) block(p func(in, out []float64)) func(in, out []float32) {
	return func(in, out []float32) {
		f.get(len(in))
		p(to64(f.a, in), f.b[:len(in)])
		to32(out, f.b)
	}
}
func (f *f64) place(p func(in, out []float64)) func(b []float32) {
	return func(b []float32) {
		f.get(len(b))
		x := to64(f.a, b)
		p(x, x)
		to32(b, x)
	}
}
func (f *f64) sblock(p func(l, r, ol, or []float64)) func(l, r, ol, or []float32) {
	return func(l, r, ol, or []float32) {
		n := len(l)
		f.get(n)
		p(to64(f.a, l), to64(f.b, r), f.c[:n], f.d[:n])
		to32(ol, f.c)
		to32(or, f.d)
	}
}

type vm map[string]int

func pick[T any](xs ...T) func(v int) T { return func(v int) T { return xs[(v-1)%len(xs)] } }

var (
	mixV  = pick(0.0, 0.5, 1.0)
	unitV = pick(0.0, 0.4, 1.0)
)

func init() {
	// ------------------------------------------------------------ distortion
	reg(&entry{name: "waveshaper", shape: "dual", params: []string{"curve", "drive", "mix", "asym"}, dry: "mix", allocs: true,
		nv: map[string]int{"curve": 7}, long: false,
		mk: func() *unit {
			w := distortion.NewWaveshaper()
			f := newF64()
			return &unit{block: f.block(w.ProcessBlock), place: f.place(w.ProcessBlock), sblock: f.sblock(w.ProcessStereo),
				sample: func(x float32) float32 { return float32(w.Process(float64(x))) },
				set: func(k string, v int) {
					switch k {
					case "curve":
						w.SetCurveType(distortion.CurveType(v - 1))
					case "drive":
						w.SetDrive(pick(1.0, 3.0, 0.5)(v))
					case "mix":
						w.SetMix(mixV(v))
					case "asym":
						w.SetAsymmetry(pick(-0.5, 0.0, 0.7)(v))
					}
				}}
		}})
	reg(&entry{name: "bitcrusher", shape: "dual", params: []string{"bits", "rate", "aa", "mix", "out"}, allocs: true, decays: false,
		nv: map[string]int{"aa": 2}, long: true, silent: true,
		mk: func() *unit {
			w := distortion.NewBitcrusher(sr)
			f := newF64()
			return &unit{block: f.block(w.ProcessBlock), place: f.place(w.ProcessBlock), sblock: f.sblock(w.ProcessStereo),
				sample: func(x float32) float32 { return float32(w.Process(float64(x))) }, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "bits":
						w.SetBitDepth(pick(3.0, 8.0, 32.0)(v))
					case "rate":
						w.SetSampleRateReduction(pick(1.0, 2.0, 5.5)(v))
					case "aa":
						w.SetAntiAlias(v == 1)
					case "mix":
						w.SetMix(mixV(v))
					case "out":
						w.SetOutput(pick(1.0, 0.5, 2.0)(v))
					}
				}}
		}})
	reg(&entry{name: "tape", shape: "dual", params: []string{"sat", "comp", "warm", "mix"}, dry: "mix", allocs: true, tol: 400, long: true, decays: true,
		mk: func() *unit {
			w := distortion.NewTapeSaturation(sr)
			f := newF64()
			return &unit{block: f.block(w.ProcessBlock), place: f.place(w.ProcessBlock), sblock: f.sblock(w.ProcessStereo),
				sample: func(x float32) float32 { return float32(w.Process(float64(x))) }, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "sat":
						w.SetSaturation(unitV(v))
					case "comp":
						w.SetCompression(unitV(v))
					case "warm":
						w.SetWarmth(unitV(v))
					case "mix":
						w.SetMix(mixV(v))
					}
				}}
		}})
	reg(&entry{name: "tube", shape: "dual", params: []string{"warm", "harm", "bias", "hyst", "mix"}, dry: "mix", allocs: true, long: true,
		mk: func() *unit {
			w := distortion.NewTubeSaturation()
			f := newF64()
			return &unit{block: f.block(w.ProcessBlock), place: f.place(w.ProcessBlock), sblock: f.sblock(w.ProcessStereo),
				sample: func(x float32) float32 { return float32(w.Process(float64(x))) }, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "warm":
						w.SetWarmth(unitV(v))
					case "harm":
						w.SetHarmonics(unitV(v))
					case "bias":
						w.SetBias(pick(-1.0, 0.0, 0.5)(v))
					case "hyst":
						w.SetHysteresis(unitV(v))
					case "mix":
						w.SetMix(mixV(v))
					}
				}}
		}})
	// ------------------------------------------------------------ dynamics
	reg(&entry{name: "compressor", shape: "link", params: []string{"thr", "ratio", "att", "rel", "knee", "gain"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewCompressor(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, 0.0)(v))
					case "ratio":
						w.SetRatio(pick(1.0, 4.0, 100.0)(v))
					case "att":
						w.SetAttack(pick(0.0001, 0.002, 0.05)(v))
					case "rel":
						w.SetRelease(pick(0.001, 0.02, 0.2)(v))
					case "knee":
						w.SetKnee(pick(dynamics.KneeHard, dynamics.KneeSoft, dynamics.KneeSoft)(v), pick(0.0, 0.0, 6.0)(v))
					case "gain":
						w.SetMakeupGain(pick(0.0, 6.0, -6.0)(v))
					}
				}}
		}})
	reg(&entry{name: "compressor-lookahead", shape: "link", params: []string{"thr", "look"}, flush: map[string]bool{"look": true}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewCompressor(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, 0.0)(v))
					case "look":
						w.SetLookahead(pick(0.0, 0.002, 0.01)(v))
					}
				}}
		}})
	reg(&entry{name: "compressor-sidechain", shape: "stereo", params: []string{"thr", "ratio"}, allocs: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewCompressor(sr)
			return &unit{sblock: func(l, r, ol, or []float32) { // the second input controls the first
				w.ProcessSidechain(l, r, ol)
				for i := range or {
					or[i] = 0
				}
			}, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, 0.0)(v))
					case "ratio":
						w.SetRatio(pick(1.0, 4.0, 100.0)(v))
					}
				}}
		}})
	reg(&entry{name: "expander", shape: "link", params: []string{"thr", "ratio", "att", "rel", "knee", "range"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewExpander(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, -6.0)(v))
					case "ratio":
						w.SetRatio(pick(1.0, 2.0, 10.0)(v))
					case "att":
						w.SetAttack(pick(0.0, 0.002, 0.05)(v))
					case "rel":
						w.SetRelease(pick(0.0, 0.02, 0.2)(v))
					case "knee":
						w.SetKnee(pick(0.0, 2.0, 12.0)(v))
					case "range":
						w.SetRange(pick(0.0, -20.0, -80.0)(v))
					}
				}}
		}})
	reg(&entry{name: "gate", shape: "link", params: []string{"thr", "hyst", "att", "hold", "rel"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewGate(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, -6.0)(v))
					case "hyst":
						w.SetHysteresis(pick(0.0, 5.0, 20.0)(v))
					case "att":
						w.SetAttack(pick(0.0, 0.002, 0.02)(v))
					case "hold":
						w.SetHold(pick(0.0, 0.001, 0.01)(v))
					case "rel":
						w.SetRelease(pick(0.0, 0.002, 0.05)(v))
					}
				}}
		}})
	reg(&entry{name: "gate-filter", shape: "sym", params: []string{"thr", "hpf", "range"}, flush: map[string]bool{"range": true}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewGate(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-30.0, -12.0, -6.0)(v))
					case "hpf":
						w.SetSidechainFilter(v > 1, pick(100.0, 100.0, 1000.0)(v))
					case "range":
						w.SetRange(pick(0.0, -20.0, -60.0)(v))
					}
				}}
		}})
	reg(&entry{name: "limiter", shape: "link", params: []string{"thr", "rel", "look"}, flush: map[string]bool{"look": true}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := dynamics.NewLimiter(sr)
			w.SetTruePeak(false)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-20.0, -6.0, 0.0)(v))
					case "rel":
						w.SetRelease(pick(0.001, 0.02, 0.1)(v))
					case "look":
						w.SetLookahead(pick(0.0, 0.002, 0.01)(v))
					}
				}}
		}})
	reg(&entry{name: "limiter-truepeak", shape: "link", params: []string{"thr", "tp"}, allocs: true, silent: true, decays: true, long: true, nv: map[string]int{"tp": 2},
		mk: func() *unit {
			w := dynamics.NewLimiter(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereo, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "thr":
						w.SetThreshold(pick(-20.0, -6.0, 0.0)(v))
					case "tp":
						w.SetTruePeak(v == 2)
					}
				}}
		}})
	// ------------------------------------------------------------ envelopes
	reg(&entry{name: "detector", shape: "mono", params: []string{"type", "att", "rel", "hold"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := envelope.NewDetector(sr, envelope.ModePeakHold)
			return &unit{block: w.Process, sample: w.Detect, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "type":
						w.SetType(envelope.DetectorType(v - 1))
					case "att":
						w.SetAttack(pick(0.0, 0.002, 0.05)(v))
					case "rel":
						w.SetRelease(pick(0.001, 0.02, 0.1)(v))
					case "hold":
						w.SetHold(pick(0.0, 0.001, 0.01)(v))
					}
				}}
		}})
	reg(&entry{name: "detector-rms", shape: "mono", params: []string{"win", "type"}, flush: map[string]bool{"win": true}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := envelope.NewDetector(sr, envelope.ModeRMS)
			return &unit{block: w.Process, sample: w.Detect, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "win":
						w.SetRMSWindow(pick(0.0, 2.0, 7.0)(v))
					case "type":
						w.SetType(envelope.DetectorType(v - 1))
					}
				}}
		}})
	reg(&entry{name: "follower", shape: "mono", params: []string{"att", "rel"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := envelope.NewFollower(sr)
			return &unit{block: w.Process, sample: w.Follow,
				set: func(k string, v int) {
					switch k {
					case "att":
						w.SetAttack(pick(0.001, 0.002, 0.05)(v))
					case "rel":
						w.SetRelease(pick(0.001, 0.02, 0.1)(v))
					}
				}}
		}})
	// ------------------------------------------------------------ filters
	reg(&entry{name: "biquad", shape: "dual", params: []string{"type", "freq", "q"}, allocs: true, silent: true, decays: true, long: true, bound: 64,
		nv: map[string]int{"type": 8},
		mk: func() *unit {
			w := filter.NewBiquad(2)
			c := vm{"type": 1, "freq": 1, "q": 1}
			up := func() {
				fr, q := pick(300.0, 1000.0, 3000.0)(c["freq"]), pick(0.5, 0.707, 4.0)(c["q"])
				switch c["type"] {
				case 1:
					w.SetLowpass(sr, fr, q)
				case 2:
					w.SetHighpass(sr, fr, q)
				case 3:
					w.SetBandpass(sr, fr, q)
				case 4:
					w.SetNotch(sr, fr, q)
				case 5:
					w.SetAllpass(sr, fr, q)
				case 6:
					w.SetPeakingEQ(sr, fr, q, 6)
				case 7:
					w.SetLowShelf(sr, fr, q, -6)
				case 8:
					w.SetHighShelf(sr, fr, q, 6)
				}
			}
			up()
			n := 0
			return &unit{place: func(b []float32) { w.Process(b, 0) },
				splace: func(l, r []float32) {
					n++
					if n%2 == 0 {
						w.ProcessMulti([][]float32{l, r})
					} else {
						w.Process(r, 1)
						w.Process(l, 0)
					}
				}, reset: w.Reset, set: func(k string, v int) { c[k] = v; up() }}
		}})
	reg(&entry{name: "svf", shape: "dual", params: []string{"mode", "freq", "q"}, allocs: true, silent: true, decays: true, long: true, bound: 64,
		nv: map[string]int{"mode": 5},
		mk: func() *unit {
			w := filter.NewSVF(2)
			c := vm{"mode": 1}
			w.SetFrequencyAndQ(sr, 500, 1)
			one := func(b []float32, ch int) {
				switch c["mode"] {
				case 1:
					w.ProcessLowpass(b, ch)
				case 2:
					w.ProcessHighpass(b, ch)
				case 3:
					w.ProcessBandpass(b, ch)
				case 4:
					w.ProcessNotch(b, ch)
				case 5:
					w.ProcessMixed(b, ch, 0.5, 0.25, -0.5, 0.125)
				}
			}
			return &unit{place: func(b []float32) { one(b, 0) }, splace: func(l, r []float32) { one(l, 0); one(r, 1) },
				sample: func(x float32) float32 {
					o := w.ProcessSample(x, 0)
					switch c["mode"] {
					case 1:
						return o.Lowpass
					case 2:
						return o.Highpass
					case 3:
						return o.Bandpass
					case 4:
						return o.Notch
					}
					return o.Lowpass*0.5 + o.Highpass*0.25 - o.Bandpass*0.5 + o.Notch*0.125
				}, reset: w.Reset, set: func(k string, v int) {
					switch k {
					case "mode":
						c[k] = v
					case "freq":
						w.SetFrequency(sr, pick(300.0, 1000.0, 3000.0)(v))
					case "q":
						w.SetQ(pick(0.5, 0.707, 4.0)(v))
					}
				}}
		}})
	reg(&entry{name: "multimode", shape: "dual", params: []string{"mode", "freq"}, allocs: true, silent: true, decays: true, long: true, bound: 64,
		nv: map[string]int{"mode": 6},
		mk: func() *unit {
			w := filter.NewMultiModeSVF(2)
			w.SetFrequencyAndQ(sr, 500, 1)
			return &unit{place: func(b []float32) { w.Process(b, 0) }, splace: func(l, r []float32) { w.Process(l, 0); w.Process(r, 1) }, reset: w.Reset,
				set: func(k string, v int) {
					switch k {
					case "mode":
						w.SetMode(pick(0.0, 0.25, 0.3, 0.6, 0.9, 1.25)(v))
					case "freq":
						w.SetFrequencyAndQ(sr, pick(300.0, 1000.0, 3000.0)(v), 1)
					}
				}}
		}})
	reg(&entry{name: "dcblocker", shape: "dual", params: []string{"cut"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := utility.NewDCBlocker(2, 20, sr)
			n := 0
			return &unit{place: func(b []float32) { w.ProcessBuffer(b, 0) }, sample: func(x float32) float32 { return w.Process(x, 0) },
				splace: func(l, r []float32) {
					n++
					if n%2 == 0 {
						w.ProcessStereo(l, r)
					} else {
						w.ProcessMultiChannel([][]float32{l, r})
					}
				}, reset: w.Reset, set: func(k string, v int) { w.SetCutoff(pick(float32(5), 50, 500)(v), sr) }}
		}})
	reg(&entry{name: "dcblocker-simple", shape: "mono", allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := utility.NewSimpleDCBlocker(sr)
			return &unit{place: w.ProcessBuffer, sample: w.Process, reset: w.Reset}
		}})
	// ------------------------------------------------------------ modulation
	reg(&entry{name: "chorus", shape: "stereo", params: []string{"rate", "depth", "delay", "mix", "fb", "spread", "voices"}, dry: "mix", allocs: true, silent: true, decays: true, long: true,
		flush: map[string]bool{"delay": true, "voices": true}, nv: map[string]int{"voices": 4},
		mk: func() *unit {
			w := modulation.NewChorus(sr)
			return &unit{sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "rate":
					w.SetRate(pick(0.3, 2.0, 9.0)(v))
				case "depth":
					w.SetDepth(pick(0.0, 2.0, 9.0)(v))
				case "delay":
					w.SetDelay(pick(1.0, 5.0, 20.0)(v))
				case "mix":
					w.SetMix(mixV(v))
				case "fb":
					w.SetFeedback(pick(0.0, 0.2, 0.5)(v))
				case "spread":
					w.SetSpread(unitV(v))
				case "voices":
					w.SetVoices(v)
				}
			}}
		}})
	reg(&entry{name: "chorus-mono", shape: "stereo", params: []string{"rate", "mix"}, allocs: true, silent: true, long: true,
		mk: func() *unit { // one input, two outputs
			w := modulation.NewChorus(sr)
			return &unit{sblock: func(l, r, ol, or []float32) { w.ProcessBuffer(l, ol, or) }, ssamp: func(l, r float32) (float32, float32) { return w.Process(l) }, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "rate":
					w.SetRate(pick(0.3, 2.0, 9.0)(v))
				case "mix":
					w.SetMix(mixV(v))
				}
			}}
		}})
	reg(&entry{name: "flanger", shape: "left", params: []string{"rate", "depth", "delay", "mix", "fb", "manual", "mode"}, dry: "mix", anti: true, allocs: true, silent: true, decays: true, long: true,
		flush: map[string]bool{"delay": true}, nv: map[string]int{"mode": 2},
		mk: func() *unit {
			w := modulation.NewFlanger(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "rate":
					w.SetRate(pick(0.3, 2.0, 9.0)(v))
				case "depth":
					w.SetDepth(pick(0.0, 2.0, 9.0)(v))
				case "delay":
					w.SetDelay(pick(1.0, 5.0, 10.0)(v))
				case "mix":
					w.SetMix(mixV(v))
				case "fb":
					w.SetFeedback(pick(0.0, 0.5, -0.7)(v))
				case "manual":
					w.SetManual(unitV(v))
				case "mode":
					w.SetManualMode(v == 2)
				}
			}}
		}})
	reg(&entry{name: "phaser", shape: "left", params: []string{"rate", "depth", "center", "mix", "fb", "stages"}, dry: "mix", anti: true, allocs: true, silent: true, decays: true, long: true,
		flush: map[string]bool{"stages": true},
		mk: func() *unit {
			w := modulation.NewPhaser(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "rate":
					w.SetRate(pick(0.3, 2.0, 9.0)(v))
				case "depth":
					w.SetDepth(unitV(v))
				case "center":
					w.SetCenterFrequency(pick(200.0, 1000.0, 1800.0)(v))
				case "mix":
					w.SetMix(mixV(v))
				case "fb":
					w.SetFeedback(pick(0.0, 0.5, -0.7)(v))
				case "stages":
					w.SetStages(pick(2, 5, 8)(v))
				}
			}}
		}})
	reg(&entry{name: "allpass1", shape: "mono", params: []string{"freq"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := modulation.NewAllPassFilter()
			w.SetFrequency(500, sr)
			return &unit{sample: w.Process, reset: w.Reset, set: func(k string, v int) { w.SetFrequency(pick(100.0, 1000.0, 3000.0)(v), sr) }}
		}})
	reg(&entry{name: "ringmod", shape: "dual", params: []string{"freq", "mix", "wave", "lfo", "rate", "depth"}, dry: "mix", allocs: true, silent: true, decays: true, long: true,
		nv: map[string]int{"wave": 4, "lfo": 2},
		mk: func() *unit {
			w := modulation.NewRingModulator(sr)
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "freq":
					w.SetFrequency(pick(100.0, 500.0, 1903.0)(v))
				case "mix":
					w.SetMix(mixV(v))
				case "wave":
					w.SetWaveform(modulation.Waveform(v - 1))
				case "lfo":
					w.EnableLFO(v == 2)
				case "rate":
					w.SetLFORate(pick(1.0, 5.0, 20.0)(v))
				case "depth":
					w.SetLFODepth(unitV(v))
				}
			}}
		}})
	reg(&entry{name: "tremolo", shape: "dual", params: []string{"rate", "depth", "wave", "mode", "smooth"}, allocs: true, silent: true, decays: true, long: true,
		nv: map[string]int{"wave": 4, "mode": 2, "smooth": 2},
		mk: func() *unit {
			w := modulation.NewTremolo(sr)
			c := vm{}
			return &unit{block: w.ProcessBuffer, sample: w.Process, sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				c[k] = v
				switch k {
				case "rate":
					w.SetRate(pick(1.0, 5.0, 19.0)(v))
				case "depth":
					w.SetDepth(unitV(v))
				case "wave":
					w.SetWaveform(modulation.Waveform(v - 1))
				case "mode":
					w.SetMode(modulation.TremoloMode(v - 1))
				}
				if c["smooth"] > 0 { // the last word, as choosing a wave chooses smoothing too
					w.EnableSmoothing(c["smooth"] == 2)
				}
			}}
		}})
	reg(&entry{name: "tremolo-stereo", shape: "stereo", params: []string{"rate", "phase", "stereo"}, allocs: true, silent: true, long: true, decays: true,
		flush: map[string]bool{"phase": true, "stereo": true}, nv: map[string]int{"stereo": 2},
		mk: func() *unit {
			w := modulation.NewTremolo(sr)
			return &unit{sblock: w.ProcessStereoBuffer, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "rate":
					w.SetRate(pick(1.0, 5.0, 19.0)(v))
				case "phase":
					w.SetStereoPhase(pick(0.0, 0.25, 0.5)(v))
				case "stereo":
					w.SetStereo(v == 2)
				}
			}}
		}})
	reg(&entry{name: "lfo", shape: "mono", params: []string{"freq", "wave", "depth", "offset"}, allocs: true, long: true, bound: 1, tol: 24,
		nv: map[string]int{"wave": 4},
		mk: func() *unit {
			w := modulation.NewLFO(sr)
			f := newF64()
			return &unit{block: f.block(func(in, out []float64) { w.ProcessBuffer(out[:len(in)]) }), place: f.place(func(in, out []float64) { w.ProcessBuffer(out) }),
				sample: func(float32) float32 { return float32(w.Process()) }, reset: w.Reset, set: func(k string, v int) {
					switch k {
					case "freq":
						w.SetFrequency(pick(0.5, 3.0, 20.0)(v))
					case "wave":
						w.SetWaveform(modulation.Waveform(v - 1))
					case "depth":
						w.SetDepth(unitV(v))
					case "offset":
						w.SetOffset(pick(-0.5, 0.0, 1.0)(v))
					}
				}}
		}})
	// ------------------------------------------------------------ oscillators
	reg(&entry{name: "oscillator", shape: "mono", params: []string{"freq", "wave"}, allocs: true, long: true, bound: 1,
		nv: map[string]int{"wave": 5},
		mk: func() *unit {
			w := oscillator.New(sr)
			c := vm{"wave": 1}
			return &unit{place: func(b []float32) {
				switch c["wave"] {
				case 1:
					w.ProcessSine(b)
				case 2:
					w.ProcessSaw(b)
				case 3:
					w.ProcessSquare(b)
				case 4:
					w.ProcessTriangle(b)
				case 5:
					w.ProcessPulse(b, 0.3)
				}
			}, sample: func(float32) float32 {
				switch c["wave"] {
				case 1:
					return w.Sine()
				case 2:
					return w.Saw()
				case 3:
					return w.Square()
				case 4:
					return w.Triangle()
				}
				return w.Pulse(0.3)
			}, reset: w.Reset, set: func(k string, v int) {
				if k == "wave" {
					c[k] = v
				} else {
					w.SetFrequency(pick(50.0, 441.0, 3999.0)(v))
				}
			}}
		}})
	reg(&entry{name: "blsaw", shape: "mono", params: []string{"freq"}, allocs: true, long: true,
		mk: func() *unit {
			w := oscillator.NewBandLimitedSaw(sr)
			return &unit{place: w.Process, sample: func(float32) float32 { return w.Next() }, set: func(k string, v int) { w.SetFrequency(pick(50.0, 441.0, 3999.0)(v)) }}
		}})
	// ------------------------------------------------------------ reverbs
	reg(&entry{name: "schroeder", shape: "stereo", params: []string{"room", "damp", "wet", "dry", "width"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := reverb.NewSchroeder(sr)
			return &unit{sample: w.Process, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "room":
					w.SetRoomSize(unitV(v))
				case "damp":
					w.SetDamping(pick(0.0, 0.4, 1.0)(v))
				case "wet":
					w.SetWetLevel(unitV(v))
				case "dry":
					w.SetDryLevel(unitV(v))
				case "width":
					w.SetWidth(unitV(v))
				}
			}}
		}})
	reg(&entry{name: "freeverb", shape: "stereo", params: []string{"room", "damp", "wet", "dry", "width"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := reverb.NewFreeverb(sr)
			return &unit{sample: w.Process, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
				switch k {
				case "room":
					w.SetRoomSize(unitV(v))
				case "damp":
					w.SetDamping(pick(0.0, 0.4, 1.0)(v))
				case "wet":
					w.SetWetLevel(unitV(v))
				case "dry":
					w.SetDryLevel(unitV(v))
				case "width":
					w.SetWidth(unitV(v))
				}
			}}
		}})
	for _, n := range []int{4, 6, 8} {
		n := n
		reg(&entry{name: "fdn" + string(rune('0'+n)), shape: "stereo", params: []string{"decay", "damp", "diff", "mod", "wet", "dry"}, allocs: true, silent: true, decays: true, long: true,
			mk: func() *unit {
				w := reverb.NewFDN(n, sr)
				return &unit{sample: w.Process, ssamp: w.ProcessStereo, reset: w.Reset, set: func(k string, v int) {
					switch k {
					case "decay":
						w.SetDecay(unitV(v))
					case "damp":
						w.SetDamping(pick(0.2, 0.5, 1.0)(v))
					case "diff":
						w.SetDiffusion(unitV(v))
					case "mod":
						w.SetModulation(unitV(v))
					case "wet":
						w.SetWetLevel(unitV(v))
					case "dry":
						w.SetDryLevel(unitV(v))
					}
				}}
			}})
	}
	reg(&entry{name: "comb", shape: "mono", params: []string{"fb", "damp"}, allocs: true, silent: true, decays: true, long: true,
		mk: func() *unit {
			w := reverb.NewCombFilter(37)
			return &unit{sample: w.Process, reset: w.Reset, set: func(k string, v int) {
				if k == "fb" {
					w.SetFeedback(pick(0.0, 0.5, 0.98)(v))
				} else {
					w.SetDamping(pick(0.0, 0.3, 1.0)(v))
				}
			}}
		}})
	// ------------------------------------------------------------ adapters and ready-made chains
	proc := func(name string, allocs bool, mk func() fdsp.Processor) {
		reg(&entry{name: name, shape: "mono", allocs: allocs, silent: true, decays: true, long: true, mk: func() *unit {
			p := mk()
			return &unit{place: p.Process, reset: p.Reset}
		}})
	}
	proc("adapter-compressor", true, func() fdsp.Processor { return fdsp.NewCompressorAdapter(dynamics.NewCompressor(sr)) })
	proc("adapter-gate", true, func() fdsp.Processor { return fdsp.NewGateAdapter(dynamics.NewGate(sr)) })
	proc("adapter-dcblocker", true, func() fdsp.Processor { return fdsp.NewDCBlockerAdapter(sr) })
	proc("chain-simple", true, func() fdsp.Processor { c, _ := fdsp.CreateSimpleChain(sr); return c })
	proc("chain-dynamics", true, func() fdsp.Processor { c, _ := fdsp.CreateDynamicsChain(sr); return c })
	proc("chain-parallel", true, func() fdsp.Processor {
		return fdsp.NewParallelChain("p").Add(fdsp.NewDCBlockerAdapter(sr), 0.5).Add(fdsp.NewGateAdapter(dynamics.NewGate(sr)), 0.25).
			Add(fdsp.NewCompressorAdapter(dynamics.NewCompressor(sr)), -0.5)
	})
	proc("chain-nested", true, func() fdsp.Processor {
		p := fdsp.NewParallelChain("p").Add(fdsp.ProcessorFunc(func([]float32) {}), 1).Add(fdsp.NewGateAdapter(dynamics.NewGate(sr)), -1)
		c := fdsp.NewChain("c").Add(p).Add(fdsp.NewParallelChain("q").Add(fdsp.NewChain("d").Add(fdsp.NewDCBlockerAdapter(sr)), 1))
		return fdsp.NewParallelChain("o").Add(c, 0.5).Add(fdsp.NewChain("e").AddFunc("x2", func(b []float32) {
			for i := range b {
				b[i] *= 2
			}
		}), 0.25)
	})
	reg(&entry{name: "smoothparam", shape: "mono", params: []string{"target"}, allocs: true, long: true, mk: func() *unit {
		w := utility.NewSmoothParameter(0.01, sr)
		return &unit{sample: func(float32) float32 { return float32(w.Process()) }, set: func(k string, v int) { w.SetTarget(pick(0.0, 0.5, 1.0)(v)) }}
	}})
	_ = envelope.New
}
