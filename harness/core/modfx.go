package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"verif/vh"
)

// modSubj is one modulation effect; the op "new" says which.
type modSubj struct {
	k       string
	sr      float64
	n       int
	trem    *modulation.Tremolo
	ring    *modulation.RingModulator
	chorus  *modulation.Chorus
	flanger *modulation.Flanger
	phaser  *modulation.Phaser
	mod     *delay.ModulatedDelay
	pan     *pan.AutoPan
	short   []int // how much shorter the outputs are
}

func (s *modSubj) Do(o vh.Op) any {
	s.n++
	u := func(k string) float64 { return float64(o.I(k)) / one20 }
	hz := func() float64 { return u("x") * s.sr }
	ms := func() float64 { return u("x") * 1000 / s.sr }
	switch o.S("op") {
	case "new":
		s.k, s.sr = o.S("k"), float64(o.I("sr"))
		switch s.k {
		case "trem":
			s.trem = modulation.NewTremolo(s.sr)
		case "ring":
			s.ring = modulation.NewRingModulator(s.sr)
		case "chorus":
			s.chorus = modulation.NewChorus(s.sr)
		case "flanger":
			s.flanger = modulation.NewFlanger(s.sr)
		case "phaser":
			s.phaser = modulation.NewPhaser(s.sr)
		case "mod":
			s.mod = delay.NewModulated(0.1, s.sr)
		case "pan":
			s.pan = pan.NewAutoPan(0, 1, pan.Law(o.I("law")))
		}
	case "rate":
		switch s.k {
		case "trem":
			s.trem.SetRate(hz())
		case "ring":
			s.ring.SetLFORate(hz())
		case "chorus":
			s.chorus.SetRate(hz())
		case "flanger":
			s.flanger.SetRate(hz())
		case "phaser":
			s.phaser.SetRate(hz())
		case "pan":
			s.pan.SetRate(float32(hz()))
		}
	case "depth":
		switch s.k {
		case "trem":
			s.trem.SetDepth(u("x"))
		case "ring":
			s.ring.SetLFODepth(u("x"))
		case "chorus":
			s.chorus.SetDepth(ms())
		case "flanger":
			s.flanger.SetDepth(ms())
		case "phaser":
			s.phaser.SetDepth(u("x"))
		case "pan":
			s.pan.SetDepth(float32(u("x")))
		}
	case "modlfo":
		s.mod.SetLFO(hz(), u("d")*1000/s.sr)
	case "wave":
		s.ring.SetWaveform(lfoWave[o.S("w")])
	case "tremwave":
		s.trem.SetWaveform(lfoWave[o.S("w")])
	case "harm":
		m := modulation.TremoloModeNormal
		if o.B("on") {
			m = modulation.TremoloModeHarmonic
		}
		s.trem.SetMode(m)
	case "stereo":
		s.trem.SetStereo(o.B("on"))
	case "offset":
		s.trem.SetStereoPhase(u("x"))
	case "smooth":
		s.trem.EnableSmoothing(o.B("on"))
	case "gain":
		o["g"] = q20(s.trem.GetCurrentGain())
	case "carrier":
		s.ring.SetFrequency(hz())
	case "lfo":
		s.ring.EnableLFO(o.B("on"))
	case "mix":
		switch s.k {
		case "ring":
			s.ring.SetMix(u("x"))
		case "chorus":
			s.chorus.SetMix(u("x"))
		case "flanger":
			s.flanger.SetMix(u("x"))
		case "phaser":
			s.phaser.SetMix(u("x"))
		}
	case "feedback":
		switch s.k {
		case "chorus":
			s.chorus.SetFeedback(u("x"))
		case "flanger":
			s.flanger.SetFeedback(u("x"))
		case "phaser":
			s.phaser.SetFeedback(u("x"))
		}
	case "spread":
		s.chorus.SetSpread(u("x"))
	case "voices":
		s.chorus.SetVoices(o.I("n"))
	case "delay":
		switch s.k {
		case "chorus":
			s.chorus.SetDelay(ms())
		case "flanger":
			s.flanger.SetDelay(ms())
		case "mod":
			s.mod.SetCenterDelay(ms())
		}
	case "manual":
		s.flanger.SetManualMode(o.B("on"))
	case "position":
		s.flanger.SetManual(u("x"))
	case "center":
		s.phaser.SetCenterFrequency(float64(o.I("x")) / 16)
	case "range":
		s.phaser.SetFrequencyRange(float64(o.I("x"))/16, float64(o.I("hi"))/16)
	case "stages":
		s.phaser.SetStages(o.I("n"))
	case "reset":
		switch s.k {
		case "trem":
			s.trem.Reset()
		case "ring":
			s.ring.Reset()
		case "chorus":
			s.chorus.Reset()
		case "flanger":
			s.flanger.Reset()
		case "phaser":
			s.phaser.Reset()
		case "mod":
			s.mod.Reset()
		case "pan":
			s.pan.Reset()
		}
	case "run":
		if s.k == "pan" {
			s.short = o.IL("short")
		}
		o["y"] = s.run(o.L("x"))
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

// mono and stereo are what the effects with those entry points share.
type monoFx interface {
	Process(float32) float32
	ProcessStereo(l, r float32) (float32, float32)
	ProcessBuffer(in, out []float32)
	ProcessStereoBuffer(l, r, ol, or []float32)
}

func (s *modSubj) run(x []any) [][]int {
	n := len(x)
	l, r := make([]float32, n), make([]float32, n)
	one := false
	for i, v := range x {
		c := vh.ToList(v)
		one = len(c) == 1
		l[i] = float32(vh.ToInt(c[0])) / one20
		r[i] = float32(vh.ToInt(c[len(c)-1])) / one20
	}
	ol, or := make([]float32, n), make([]float32, n)
	whole := s.n%2 == 0
	out := func(two bool) [][]int {
		y := make([][]int, n)
		for i := range y {
			y[i] = []int{q20(float64(ol[i]))}
			if two {
				y[i] = append(y[i], q20(float64(or[i])))
			}
		}
		return y
	}
	var fx monoFx
	switch s.k {
	case "trem":
		fx = s.trem
	case "ring":
		fx = s.ring
	case "flanger":
		fx = s.flanger
	case "phaser":
		fx = s.phaser
	case "chorus":
		switch {
		case one && whole:
			s.chorus.ProcessBuffer(l, ol, or)
		case one:
			for i := range l {
				ol[i], or[i] = s.chorus.Process(l[i])
			}
		case whole:
			s.chorus.ProcessStereoBuffer(l, r, ol, or)
		default:
			for i := range l {
				ol[i], or[i] = s.chorus.ProcessStereo(l[i], r[i])
			}
		}
		return out(true)
	case "mod":
		if whole {
			copy(ol, l)
			s.mod.ProcessBuffer(ol)
		} else {
			for i := range l {
				ol[i] = s.mod.Process(l[i])
			}
		}
		return out(false)
	case "pan":
		s.pan.Process(l, float32(s.sr), ol[:n-s.short[0]], or[:n-s.short[1]])
		return out(true)
	}
	switch {
	case one && whole:
		fx.ProcessBuffer(l, ol)
	case one:
		for i := range l {
			ol[i] = fx.Process(l[i])
		}
	case whole:
		fx.ProcessStereoBuffer(l, r, ol, or)
	default:
		for i := range l {
			ol[i], or[i] = fx.ProcessStereo(l[i], r[i])
		}
	}
	return out(!one)
}

func genModfx(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"trem", "ring", "chorus", "flanger", "phaser", "mod", "pan"}[i%7]
	op := vh.Op{"op": "new", "k": k, "sr": 8192, "law": r.Intn(3)}
	sr := 8192
	switch k {
	case "trem":
		sr = []int{8192, 32768, 65536}[r.Intn(3)]
	case "chorus", "flanger", "mod":
		sr = 8192 << r.Intn(2)
	case "phaser":
		sr = 32768
	}
	op["sr"] = sr
	ops := []vh.Op{op}
	add := func(o vh.Op) { ops = append(ops, o) }
	unit := func() int { return []int{r.Intn(65) * 16384, r.Intn(65) * 16384, 0, one20, -one20 / 4, one20 + 65536}[r.Intn(6)] }
	on := func() bool { return r.Intn(2) == 0 }
	stereo, jumpy := false, false
	tenth := sr * one20 / 10000
	ms := func(lo, hi int) int { return (lo*tenth + r.Intn((hi-lo)*tenth+1)) &^ 65535 }
	rate := func(top int) int {
		m := top * 128 * 8192 / sr
		switch r.Intn(8) {
		case 0:
			if !jumpy {
				return r.Intn(2) - 1
			}
		case 1:
			return m + r.Intn(m)
		case 2:
			return 1 + r.Intn(8) + 2*8192/sr
		}
		return m/4 + r.Intn(m*3/4)
	}
	setting := func() vh.Op {
		switch k {
		case "trem":
			switch r.Intn(8) {
			case 0, 1:
				return vh.Op{"op": "rate", "x": rate(20)}
			case 2:
				return vh.Op{"op": "depth", "x": unit()}
			case 3:
				w := []string{"sine", "triangle", "square", "saw"}[r.Intn(4)]
				if !jumpy && (w == "square" || w == "saw") {
					jumpy = true
					add(vh.Op{"op": "reset"})
					add(vh.Op{"op": "rate", "x": rate(20)})
				}
				return vh.Op{"op": "tremwave", "w": w}
			case 4:
				return vh.Op{"op": "harm", "on": on()}
			case 5:
				stereo = on()
				return vh.Op{"op": "stereo", "on": stereo}
			case 6:
				return vh.Op{"op": "offset", "x": unit()}
			default:
				return vh.Op{"op": "smooth", "on": on()}
			}
		case "ring":
			switch r.Intn(7) {
			case 0, 1:
				return vh.Op{"op": "carrier", "x": []int{r.Intn(one20 / 2), r.Intn(one20 / 16), r.Intn(one20), r.Intn(30), 1 << r.Intn(20)}[r.Intn(5)]}
			case 2:
				return vh.Op{"op": "mix", "x": unit()}
			case 3:
				return vh.Op{"op": "wave", "w": []string{"sine", "triangle", "square", "saw"}[r.Intn(4)]}
			case 4:
				return vh.Op{"op": "lfo", "on": on()}
			case 5:
				return vh.Op{"op": "rate", "x": rate(20)}
			default:
				return vh.Op{"op": "depth", "x": unit()}
			}
		case "chorus":
			switch r.Intn(7) {
			case 0:
				return vh.Op{"op": "rate", "x": rate(10)}
			case 1:
				return vh.Op{"op": "depth", "x": []int{ms(0, 20), ms(0, 100), ms(90, 130), 0, -one20}[r.Intn(5)]}
			case 2:
				return vh.Op{"op": "delay", "x": []int{ms(10, 60), ms(0, 12), ms(10, 30), ms(490, 520)}[r.Intn(4)]}
			case 3:
				return vh.Op{"op": "mix", "x": unit()}
			case 4:
				return vh.Op{"op": "feedback", "x": unit()}
			case 5:
				return vh.Op{"op": "spread", "x": unit()}
			default:
				return vh.Op{"op": "voices", "n": r.Intn(6)}
			}
		case "flanger":
			switch r.Intn(7) {
			case 0:
				return vh.Op{"op": "rate", "x": rate(20)}
			case 1:
				return vh.Op{"op": "depth", "x": []int{ms(0, 20), ms(0, 100), ms(90, 130), 0, -one20}[r.Intn(5)]}
			case 2:
				return vh.Op{"op": "delay", "x": []int{ms(1, 30), ms(0, 3), ms(1, 100), ms(90, 120)}[r.Intn(4)]}
			case 3:
				return vh.Op{"op": "mix", "x": unit()}
			case 4:
				return vh.Op{"op": "feedback", "x": []int{(r.Intn(97) - 48) * 16384, (r.Intn(97) - 48) * 16384, one20, -2 * one20}[r.Intn(4)]}
			case 5:
				return vh.Op{"op": "manual", "on": on()}
			default:
				return vh.Op{"op": "position", "x": unit()}
			}
		case "phaser":
			switch r.Intn(7) {
			case 0:
				return vh.Op{"op": "rate", "x": rate(10)}
			case 1:
				return vh.Op{"op": "depth", "x": []int{r.Intn(9) * one20 / 8, one20, -one20, 2 * one20}[r.Intn(4)]}
			case 2:
				return vh.Op{"op": "center", "x": []int{16 * (100 + r.Intn(3900)), 16 * (100 + r.Intn(900)), 16 * r.Intn(100), 16 * (4000 + r.Intn(100))}[r.Intn(4)]}
			case 3:
				return vh.Op{"op": "mix", "x": unit()}
			case 4:
				return vh.Op{"op": "feedback", "x": []int{(r.Intn(97) - 48) * 16384, (r.Intn(97) - 48) * 16384, one20, -2 * one20}[r.Intn(4)]}
			case 5:
				lo := 16 * r.Intn(9000)
				return vh.Op{"op": "range", "x": lo, "hi": 32 * r.Intn(6000)}
			default:
				return vh.Op{"op": "stages", "n": r.Intn(11)}
			}
		case "mod":
			if on() {
				return vh.Op{"op": "modlfo", "x": []int{r.Intn(one20 / 64), r.Intn(one20), 0}[r.Intn(3)], "d": []int{ms(0, 50), ms(0, 300), 0}[r.Intn(3)]}
			}
			return vh.Op{"op": "delay", "x": []int{ms(0, 60), ms(300, 690), 0}[r.Intn(3)]}
		}
		if on() {
			return vh.Op{"op": "rate", "x": []int{r.Intn(one20 / 2), r.Intn(one20 / 32), 0}[r.Intn(3)]}
		}
		return vh.Op{"op": "depth", "x": r.Intn(65) * 16384}
	}
	if k == "chorus" {
		add(vh.Op{"op": "voices", "n": r.Intn(6)})
	}
	for len(ops) < 22 {
		for j := r.Intn(4); j > 0; j-- {
			add(setting())
		}
		again := r.Intn(5) == 0
		if again {
			add(vh.Op{"op": "reset"})
		}
		n := 1 + r.Intn(12)
		if again || r.Intn(3) == 0 {
			n = 20 + r.Intn(60)
		}
		two := on()
		if k == "trem" {
			two = two || stereo
		}
		if k == "mod" || k == "pan" {
			two = false
		}
		x := make([]any, n)
		level := 1024 >> r.Intn(3)
		for j := range x {
			c := []any{1024 * (r.Intn(2*level+1) - level)}
			if two {
				c = append(c, 1024*(r.Intn(2*level+1)-level))
			}
			x[j] = c
		}
		run := vh.Op{"op": "run", "x": x}
		if k == "pan" {
			run["short"] = []int{r.Intn(2) * r.Intn(n+1), r.Intn(2) * r.Intn(n+1)}
		}
		add(run)
		if k == "trem" {
			add(vh.Op{"op": "gain"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "modfx", New: func() vh.Subject { return &modSubj{} }, Gen: genModfx, Quick: 350, Thorough: 5000})
}
