package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"verif/vh"
)

type dynSubj struct {
	sr   float64
	soft bool
	knee float64
	c    *dynamics.Compressor
	l    *dynamics.Limiter
	e    *dynamics.Expander
	n    int
}

func (s *dynSubj) Do(o vh.Op) any {
	none := []int{}
	s.n++
	switch o.S("op") {
	case "new":
		s.sr, s.soft, s.knee = float64(o.I("sr")), true, 2
		switch o.S("k") {
		case "comp":
			s.c = dynamics.NewCompressor(s.sr)
		case "lim":
			s.l = dynamics.NewLimiter(s.sr)
		case "exp":
			s.e = dynamics.NewExpander(s.sr)
		}
	case "set":
		x := float64(o.I("x"))
		sec := x / 10 / s.sr
		switch o.S("n") {
		case "thr":
			switch {
			case s.c != nil:
				s.c.SetThreshold(x / 4)
			case s.l != nil:
				s.l.SetThreshold(x / 4)
			default:
				s.e.SetThreshold(x / 4)
			}
		case "ratio":
			if s.c != nil {
				s.c.SetRatio(x / 4)
			} else {
				s.e.SetRatio(x / 4)
			}
		case "a":
			if s.c != nil {
				s.c.SetAttack(sec)
			} else {
				s.e.SetAttack(sec)
			}
		case "r":
			switch {
			case s.c != nil:
				s.c.SetRelease(sec)
			case s.l != nil:
				s.l.SetRelease(sec)
			default:
				s.e.SetRelease(sec)
			}
		case "knee":
			if s.c != nil {
				s.knee = x / 4
				s.setKnee()
			} else {
				s.e.SetKnee(x / 4)
			}
		case "range":
			s.e.SetRange(x / 4)
		case "makeup":
			s.c.SetMakeupGain(x / 4)
		case "look":
			if x > 0 {
				x += 0.25
			}
			if s.c != nil {
				s.c.SetLookahead(x / s.sr)
			} else {
				s.l.SetLookahead(x / s.sr)
			}
		}
	case "turn":
		if s.c != nil {
			s.soft = o.B("on")
			s.setKnee()
		} else {
			s.l.SetTruePeak(o.B("on"))
		}
	case "reset":
		switch {
		case s.c != nil:
			s.c.Reset()
		case s.l != nil:
			s.l.Reset()
		default:
			s.e.Reset()
		}
	case "process":
		xl, zl := o.IL("xs"), o.IL("zs")
		a, b := in10(xl, 0), in10(zl, 0)
		ya, yb := make([]float32, len(a)), make([]float32, len(b))
		if s.n%2 == 1 && o.S("how") != "side" { // in place
			ya, yb = a, b
		}
		var p interface {
			Process(float32) float32
			ProcessBuffer(in, out []float32)
			ProcessStereo(a, b, c, d []float32)
		}
		var gr func() float64
		switch {
		case s.c != nil:
			p, gr = s.c, s.c.GetGainReduction
		case s.l != nil:
			p, gr = s.l, s.l.GetGainReduction
		default:
			p, gr = s.e, func() float64 { return -s.e.GetGainReduction() }
		}
		switch o.S("how") {
		case "one":
			for i := range a {
				ya[i] = p.Process(a[i])
			}
		case "block":
			p.ProcessBuffer(a, ya)
		case "stereo":
			p.ProcessStereo(a, b, ya, yb)
		case "side":
			s.c.ProcessSidechain(a, b, ya)
		}
		o["yl"] = q20s(ya)
		o["yr"] = none
		if o.S("how") == "stereo" {
			o["yr"] = q20s(yb)
		}
		o["rd"] = int(math.Round(math.Max(-1000, math.Min(1000, gr())) * 65536))
	default:
		panic("harness: unknown op")
	}
	return none
}

func (s *dynSubj) setKnee() {
	k := dynamics.KneeHard
	if s.soft {
		k = dynamics.KneeSoft
	}
	s.c.SetKnee(k, s.knee)
}

func genDyn(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"comp", "lim", "exp"}[i%3]
	sr := []int{8000, 8000, 48000}[r.Intn(3)]
	ts := map[int][]int{8000: {8, 80, 80, 160, 400, 800, 4000}, 48000: {48, 480, 480, 960, 2400, 4800, 24000}}[sr]
	tm := func() int {
		if r.Intn(10) == 0 {
			return []int{0, -4}[r.Intn(2)]
		}
		return ts[r.Intn(len(ts))]
	}
	ops := []vh.Op{{"op": "new", "k": k, "sr": sr}}
	set := func(n string, x int) { ops = append(ops, vh.Op{"op": "set", "n": n, "x": x}) }
	thr := func() {
		switch k {
		case "comp":
			set("thr", -r.Intn(140))
		case "lim":
			if r.Intn(4) == 0 {
				set("thr", r.Intn(9))
				break
			}
			set("thr", 8-r.Intn(100))
		default:
			set("thr", -20-r.Intn(140))
		}
	}
	if r.Intn(5) > 0 {
		thr()
		set("r", ts[r.Intn(5)])
		if k != "lim" {
			set("a", ts[r.Intn(4)])
		}
	}
	if k != "exp" {
		set("look", r.Intn(5))
	}
	stereo := r.Intn(2) == 0
	for len(ops) < 44 {
		switch r.Intn(14) {
		case 0:
			thr()
		case 1:
			set("r", tm())
		case 2:
			if k != "lim" {
				set("a", tm())
			}
		case 3:
			if k != "lim" {
				set("ratio", []int{4, 6, 8, 16, 40, 400, 0}[r.Intn(7)])
				if k == "exp" {
					ops[len(ops)-1]["x"] = []int{4, 6, 8, 16, 40, 3}[r.Intn(6)]
				}
			}
		case 4:
			if k != "lim" {
				set("knee", r.Intn(60)-3)
			}
		case 5:
			switch k {
			case "comp":
				set("makeup", r.Intn(60)-20)
			case "exp":
				set("range", 8-r.Intn(240))
			}
		case 6:
			if k != "exp" {
				set("look", []int{r.Intn(6), r.Intn(6), -3, 1000}[r.Intn(4)])
				if sr == 48000 && ops[len(ops)-1]["x"] == 1000 {
					ops[len(ops)-1]["x"] = 100
				}
			}
		case 7:
			if k == "comp" {
				ops = append(ops, vh.Op{"op": "turn", "n": "soft", "on": r.Intn(2) == 0})
			} else if k == "lim" {
				ops = append(ops, vh.Op{"op": "turn", "n": "true", "on": r.Intn(2) == 0})
			}
		case 8:
			if r.Intn(3) == 0 {
				ops = append(ops, vh.Op{"op": "reset"})
			}
		}
		n := r.Intn(24)
		if r.Intn(3) == 0 {
			n = 1
		}
		how := []string{"one", "block"}[r.Intn(2)]
		zs := []int{}
		lim := []int{1000, 1000, 400, 60}[r.Intn(4)]
		if k == "lim" && r.Intn(3) == 0 {
			lim = 1900
		}
		if stereo {
			how, zs = "stereo", stretch(r, n, lim)
		} else if k == "comp" && r.Intn(3) == 0 {
			how, zs = "side", stretch(r, n, 1000)
		}
		ops = append(ops, vh.Op{"op": "process", "how": how, "xs": stretch(r, n, lim), "zs": zs})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "dyn", New: func() vh.Subject { return &dynSubj{} }, Gen: genDyn, Quick: 300, Thorough: 5000})
}
