package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"verif/vh"
)

type gateSubj struct {
	sr float64
	g  *dynamics.Gate
	n  int
}

func (s *gateSubj) Do(o vh.Op) any {
	none := []int{}
	s.n++
	switch o.S("op") {
	case "new":
		s.sr = float64(o.I("sr"))
		s.g = dynamics.NewGate(s.sr)
	case "set":
		x := float64(o.I("x"))
		switch o.S("n") {
		case "thr":
			s.g.SetThreshold(x / 2)
		case "hyst":
			s.g.SetHysteresis(x / 2)
		case "a":
			s.g.SetAttack(x / 10 / s.sr)
		case "r":
			s.g.SetRelease(x / 10 / s.sr)
		case "hold":
			if x >= 0 {
				x += 0.25
			}
			s.g.SetHold(x / s.sr)
		case "range":
			s.g.SetRange(x / 2)
		}
	case "filter":
		f := float64(o.I("f"))
		s.g.SetSidechainFilter(f != 0, f)
	case "reset":
		s.g.Reset()
	case "process":
		in, side := in10(o.IL("xs"), 0), in10(o.IL("zs"), 0)
		out := make([]float32, len(in))
		y := make([]int, len(in))
		if len(side) > 0 {
			out2 := make([]float32, len(in))
			a, b := append([]float32{}, in...), append([]float32{}, side...)
			switch s.n % 2 {
			case 0:
				s.g.ProcessStereo(a, b, out, out2)
			case 1:
				s.g.ProcessStereo(a, b, a, b)
				out, out2 = a, b
			}
			for i := range in {
				y[i] = ratio(in[i], out[i])
				switch y2 := ratio(side[i], out2[i]); {
				case y[i] == -1:
					y[i] = y2
				case y2 != -1 && (y2-y[i] > 1 || y[i]-y2 > 1):
					y[i] = -2000 // the channels differ
				}
			}
		} else {
			switch s.n % 3 {
			case 0:
				for i := range in {
					out[i] = s.g.Process(in[i])
				}
			case 1:
				s.g.ProcessBuffer(in, out)
			case 2:
				a := append([]float32{}, in...)
				s.g.ProcessBuffer(a, a)
				out = a
			}
			for i := range in {
				y[i] = ratio(in[i], out[i])
			}
		}
		for i := range y {
			if y[i] == -2000 {
				y[i] = 1 << 28
			}
		}
		o["y"], o["state"], o["open"] = y, s.g.GetState(), s.g.IsOpen()
		o["red"] = q20(math.Pow(10, s.g.GetGainReduction()/20))
	default:
		panic("harness: unknown op")
	}
	return none
}

// ratio is the factor between two samples in 1/2^20, -1 when silence does not tell.
func ratio(in, out float32) int {
	if in == 0 {
		if out != 0 {
			return 1 << 28
		}
		return -1
	}
	g := q20(float64(out) / float64(in))
	if g < 0 {
		return 1 << 28
	}
	return g
}

func genGate(r *rand.Rand, i int, tier string) []vh.Op {
	sr := []int{8000, 48000}[r.Intn(2)]
	k := sr / 8000
	ts := []int{0, 8 * k, 80 * k, 160 * k, 400 * k, 80 * k}
	if k == 6 {
		ts = []int{0, 48, 480, 960, 2400, 480}
	}
	ops := []vh.Op{{"op": "new", "sr": sr}}
	set := func(n string, x int) { ops = append(ops, vh.Op{"op": "set", "n": n, "x": x}) }
	if r.Intn(5) > 0 {
		set("a", ts[r.Intn(len(ts))])
		set("r", ts[r.Intn(len(ts))])
		set("hold", r.Intn(12))
	}
	thr, hyst := -40, 10
	if r.Intn(4) > 0 {
		set("thr", -40)
	} else {
		thr = -80
	}
	filt := false
	if r.Intn(4) == 0 {
		ops = append(ops, vh.Op{"op": "filter", "f": []int{200, 500, 1000, 2000, 30000}[r.Intn(5)]})
		filt = true
	}
	stereo := r.Intn(3) == 0
	for len(ops) < 50 {
		switch r.Intn(16) {
		case 0:
			set("a", ts[r.Intn(len(ts))])
		case 1:
			set("r", append(ts, -3)[r.Intn(len(ts)+1)])
		case 2:
			set("hold", r.Intn(14)-1)
		case 3:
			set("range", []int{-12, -40, -80, -120, -160, 0, 20}[r.Intn(7)])
		case 4:
			thr = -20 - r.Intn(60)
			set("thr", thr)
		case 5:
			hyst = r.Intn(24) - 2
			set("hyst", hyst)
			if hyst < 0 {
				hyst = 0
			}
		case 6:
			if r.Intn(2) == 0 {
				ops = append(ops, vh.Op{"op": "reset"})
				if !filt && r.Intn(4) == 0 {
					ops = append(ops, vh.Op{"op": "filter", "f": []int{200, 500, 1000, 2000}[r.Intn(4)]})
					filt = true
				}
			} else if filt {
				ops = append(ops, vh.Op{"op": "filter", "f": 0})
			}
		}
		open := math.Pow(10, float64(thr)/40) * 1024
		shut := math.Pow(10, float64(thr-hyst)/40) * 1024
		level := func() int {
			switch r.Intn(5) {
			case 0:
				return int(open*1.3) + 1 + r.Intn(200)
			case 1:
				return int((open + shut) / 2)
			case 2:
				return int(shut * 0.8)
			case 3:
				return 0
			}
			return r.Intn(1000)
		}
		n := 1
		if r.Intn(2) == 0 {
			n = r.Intn(25)
		}
		mk := func() []int {
			xs := make([]int, n)
			a := level()
			for j := range xs {
				if r.Intn(6) == 0 {
					a = level()
				}
				xs[j] = a
				if j%2 == 1 && (filt || r.Intn(3) == 0) {
					xs[j] = -a
				}
			}
			return xs
		}
		xs, zs := mk(), []int{}
		if stereo || r.Intn(8) == 0 {
			zs = mk()
		}
		ops = append(ops, vh.Op{"op": "process", "xs": xs, "zs": zs})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "gate", New: func() vh.Subject { return &gateSubj{} }, Gen: genGate, Quick: 600, Thorough: 5000})
}
