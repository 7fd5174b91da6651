package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"verif/vh"
)

// q20 turns a sample into 1/2^20, with a large number for what is no number.
func q20(x float64) int {
	y := math.Round(x * (1 << 20))
	if !(math.Abs(y) < 1<<29) {
		return 1 << 29
	}
	return int(y)
}

func q20s(b []float32) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = q20(float64(x))
	}
	return r
}

// in10 reads a list of samples in 1/1024 * 2^-g.
func in10(xs []int, g int) []float32 {
	b := make([]float32, len(xs))
	for i, x := range xs {
		b[i] = float32(math.Ldexp(float64(x), -10-g))
	}
	return b
}

type envSubj struct {
	kind   string
	sr     float64
	adsr   *envelope.ADSR
	ar     *envelope.AR
	follow *envelope.Follower
	det    *envelope.Detector
}

var stageNames = map[envelope.Stage]string{envelope.StageIdle: "idle", envelope.StageAttack: "attack", envelope.StageDecay: "decay",
	envelope.StageSustain: "sustain", envelope.StageRelease: "release"}
var detModes = map[string]envelope.DetectorMode{"peak": envelope.ModePeak, "rms": envelope.ModeRMS, "peakhold": envelope.ModePeakHold}
var detTypes = map[string]envelope.DetectorType{"linear": envelope.TypeLinear, "log": envelope.TypeLogarithmic, "analog": envelope.TypeAnalog}

func (s *envSubj) sec(x int) float64 { return float64(x) / 10 / s.sr }

func (s *envSubj) Do(o vh.Op) any {
	none := []int{}
	switch o.S("op") {
	case "new":
		s.kind, s.sr = o.S("k"), float64(o.I("sr"))
		switch s.kind {
		case "adsr":
			s.adsr = envelope.New(s.sr)
		case "ar":
			s.ar = envelope.NewAR(s.sr)
		case "follow":
			s.follow = envelope.NewFollower(s.sr)
		case "detect":
			s.det = envelope.NewDetector(s.sr, detModes[o.S("mode")])
		}
	case "set":
		x := o.I("x")
		switch n := o.S("n"); n {
		case "a":
			switch s.kind {
			case "adsr":
				s.adsr.SetAttack(s.sec(x))
			case "ar":
				s.ar.SetAttack(s.sec(x))
			case "follow":
				s.follow.SetAttack(s.sec(x))
			case "detect":
				s.det.SetAttack(s.sec(x))
			}
		case "r":
			switch s.kind {
			case "adsr":
				s.adsr.SetRelease(s.sec(x))
			case "ar":
				s.ar.SetRelease(s.sec(x))
			case "follow":
				s.follow.SetRelease(s.sec(x))
			case "detect":
				s.det.SetRelease(s.sec(x))
			}
		case "d":
			s.adsr.SetDecay(s.sec(x))
		case "s":
			s.adsr.SetSustain(float64(x) / (1 << 20))
		case "h":
			q := 0.25
			if x < 0 {
				q = 0
			}
			s.det.SetHold((float64(x) + q) / s.sr)
		case "w":
			s.det.SetRMSWindow((float64(x) + 0.25) * 1000 / s.sr)
		}
	case "times":
		s.det.SetTimeConstants(s.sec(o.I("a")), s.sec(o.I("r")))
	case "setall":
		s.adsr.SetADSR(s.sec(o.I("a")), s.sec(o.I("d")), float64(o.I("s"))/(1<<20), s.sec(o.I("r")))
	case "mode":
		s.det.SetMode(detModes[o.S("m")])
	case "type":
		s.det.SetType(detTypes[o.S("m")])
	case "trigger":
		if s.adsr != nil {
			s.adsr.Trigger()
		} else {
			s.ar.Trigger()
		}
	case "release":
		if s.adsr != nil {
			s.adsr.Release()
		} else {
			s.ar.Release()
		}
	case "reset":
		if s.adsr != nil {
			s.adsr.Reset()
		} else {
			s.det.Reset()
		}
	case "run":
		b := make([]float32, o.I("n"))
		var e interface {
			Next() float32
			Process([]float32)
			ProcessMultiply([]float32)
		}
		if s.adsr != nil {
			e = s.adsr
		} else {
			e = s.ar
		}
		switch o.S("how") {
		case "next":
			for i := range b {
				b[i] = e.Next()
			}
		case "process":
			for i := range b {
				b[i] = 7
			}
			e.Process(b)
		case "multiply":
			in := func(i int) float32 { return []float32{0.5, -1, 0.125, -0.25}[i%4] }
			for i := range b {
				b[i] = in(i)
			}
			e.ProcessMultiply(b)
			for i := range b {
				b[i] /= in(i)
			}
		}
		o["y"] = q20s(b)
		o["stage"], o["active"] = "idle", false
		if s.adsr != nil {
			o["stage"], o["active"] = stageNames[s.adsr.GetStage()], s.adsr.IsActive()
		}
	case "follow":
		in := in10(o.IL("xs"), o.I("g"))
		out := make([]float32, len(in))
		switch o.S("how") {
		case "one":
			for i := range in {
				out[i] = s.follow.Follow(in[i])
			}
		case "block":
			s.follow.Process(in, out)
		case "inplace":
			s.follow.Process(in, in)
			out = in
		}
		o["y"] = q20s(out)
	case "detect":
		in := in10(o.IL("xs"), o.I("g"))
		out := make([]float32, len(in))
		switch o.S("how") {
		case "one":
			for i := range in {
				out[i] = s.det.Detect(in[i])
			}
		case "block":
			s.det.Process(in, out)
		case "inplace":
			s.det.Process(in, in)
			out = in
		case "side":
			main := make([]float32, len(in))
			for i := range main {
				main[i] = 0.9
			}
			s.det.ProcessSidechain(main, in, out)
		}
		o["y"] = q20s(out)
	case "level":
		o["y"] = q20(float64(s.det.GetEnvelope()))
		o["lin"] = q20(math.Pow(10, float64(s.det.GetEnvelopeDB())/20))
	default:
		panic("harness: unknown op")
	}
	return none
}

var envTimes = map[int][]int{8000: {80, 80, 160, 400, 800, 8000, 160000}, 48000: {480, 480, 960, 2400, 4800, 48000, 960000}}

// a stretch of input: steps, bursts, noise or a fade, in 1/1024
func stretch(r *rand.Rand, n, lim int) []int {
	xs := make([]int, n)
	a := r.Intn(2*lim+1) - lim
	kind := r.Intn(5)
	for i := range xs {
		switch kind {
		case 0:
			xs[i] = a
		case 1:
			xs[i] = r.Intn(2*lim+1) - lim
		case 2:
			if i == n/3 {
				xs[i] = a
			}
		case 3:
			xs[i] = a * (n - i) / n
		case 4:
			xs[i] = a * (1 - 2*(i/3%2))
		}
	}
	return xs
}

func genEnv(kind string) func(r *rand.Rand, i int, tier string) []vh.Op {
	return func(r *rand.Rand, i int, tier string) []vh.Op {
		sr := []int{8000, 48000}[r.Intn(2)]
		ts := envTimes[sr]
		min := sr / 100
		if kind == "follow" || kind == "detect" {
			min = sr / 1000
			ts = append([]int{min, min}, ts...)
		}
		tm := func() int {
			if r.Intn(12) == 0 {
				return []int{0, -5, min / 2}[r.Intn(3)]
			}
			return ts[r.Intn(len(ts))]
		}
		mode := []string{"peak", "rms", "peakhold"}[r.Intn(3)]
		ops := []vh.Op{{"op": "new", "k": kind, "sr": sr, "mode": mode}}
		su := func() int {
			return []int{0, 1 << 20, -70000, 1 << 21, 1 << 18, r.Intn(1<<10) << 10, r.Intn(1<<10) << 10, 512}[r.Intn(8)]
		}
		set := func(n string, x int) { ops = append(ops, vh.Op{"op": "set", "n": n, "x": x}) }
		if kind == "adsr" || kind == "ar" {
			if r.Intn(4) > 0 {
				set("a", ts[r.Intn(3)])
				set("r", ts[r.Intn(3)])
				if kind == "adsr" {
					set("d", ts[r.Intn(3)])
				}
			}
			for len(ops) < 40 {
				switch r.Intn(10) {
				case 0:
					set("a", tm())
				case 1:
					set("r", tm())
				case 2:
					if kind == "adsr" {
						set("d", tm())
					}
				case 3:
					if kind == "adsr" {
						if r.Intn(3) == 0 {
							ops = append(ops, vh.Op{"op": "setall", "a": tm(), "d": tm(), "s": su(), "r": tm()})
						} else {
							set("s", su())
						}
					}
				case 4, 5:
					ops = append(ops, vh.Op{"op": "trigger"})
				case 6:
					ops = append(ops, vh.Op{"op": "release"})
				case 7:
					if kind == "adsr" && r.Intn(3) == 0 {
						ops = append(ops, vh.Op{"op": "reset"})
						if r.Intn(2) == 0 { // the next note at once
							ops = append(ops, vh.Op{"op": "trigger"})
						}
					}
				}
				n := 1 + r.Intn(30)
				if r.Intn(4) == 0 {
					n = 1 + r.Intn(120)
				}
				ops = append(ops, vh.Op{"op": "run", "n": n, "how": []string{"next", "process", "multiply"}[r.Intn(3)]})
			}
			return ops
		}
		if kind == "detect" && mode == "rms" && sr == 48000 {
			set("w", 1+r.Intn(24))
		}
		used := mode == "rms"
		for len(ops) < 36 {
			switch r.Intn(8) {
			case 0:
				set("a", tm())
			case 1:
				if kind == "detect" && r.Intn(2) == 0 {
					ops = append(ops, vh.Op{"op": "times", "a": tm(), "r": tm()})
				} else {
					set("r", tm())
				}
			case 2:
				if kind == "detect" {
					if r.Intn(3) == 0 {
						set("h", []int{-1, 0, 1, 5, 20}[r.Intn(5)])
					} else {
						ops = append(ops, vh.Op{"op": "type", "m": []string{"linear", "log", "analog"}[r.Intn(3)]})
					}
				}
			case 3:
				if kind == "detect" {
					if r.Intn(3) == 0 {
						set("w", []int{0, 1, 2 + r.Intn(23)}[r.Intn(3)])
						break
					}
					m := []string{"peak", "rms", "peakhold"}[r.Intn(3)]
					if m == "rms" && mode != "rms" {
						if used {
							ops = append(ops, vh.Op{"op": "reset"})
						}
						set("w", 1+r.Intn(24))
						used = true
					}
					mode = m
					ops = append(ops, vh.Op{"op": "mode", "m": m})
				}
			case 4:
				if kind == "detect" && r.Intn(3) == 0 {
					ops = append(ops, vh.Op{"op": "reset"})
				}
			}
			lim, g := 1000, 0
			if kind == "detect" && mode == "rms" {
				lim = 250
			} else if r.Intn(4) == 0 {
				lim = 6000 // above full scale
			}
			if r.Intn(8) == 0 {
				g = []int{3, 8, 24, 40, 100}[r.Intn(5)]
				if lim == 250 {
					g = []int{24, 40, 100}[r.Intn(3)]
				}
			}
			n := r.Intn(30)
			if kind == "follow" {
				ops = append(ops, vh.Op{"op": "follow", "xs": stretch(r, n, lim), "g": g, "how": []string{"one", "block", "inplace"}[r.Intn(3)]})
			} else {
				ops = append(ops, vh.Op{"op": "detect", "xs": stretch(r, n, lim), "g": g, "how": []string{"one", "block", "inplace", "side"}[r.Intn(4)]})
				if r.Intn(4) == 0 {
					ops = append(ops, vh.Op{"op": "level"})
				}
			}
		}
		return ops
	}
}

func init() {
	nw := func() vh.Subject { return &envSubj{} }
	vh.Register(&vh.Domain{Name: "envgen", New: nw, Quick: 500, Thorough: 4000, Gen: func(r *rand.Rand, i int, t string) []vh.Op {
		return genEnv([]string{"adsr", "adsr", "ar"}[i%3])(r, i, t)
	}})
	vh.Register(&vh.Domain{Name: "envdet", New: nw, Quick: 500, Thorough: 4000, Gen: func(r *rand.Rand, i int, t string) []vh.Op {
		return genEnv([]string{"detect", "detect", "follow"}[i%3])(r, i, t)
	}})
}
