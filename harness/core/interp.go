package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/vh"
)

func f64ths(xs []int) []float32 {
	b := make([]float32, len(xs))
	for i, x := range xs {
		b[i] = float32(x) / 64
	}
	return b
}

type interpSubj struct {
	ap *interpolation.AllPass
}

func (s *interpSubj) Do(o vh.Op) any {
	v := func(k string) float32 { return float32(o.I(k)) / 64 }
	f := func() float32 { return float32(o.I("f")) / 16 }
	switch op := o.S("op"); op {
	case "linear":
		o["y"] = q20(float64(interpolation.Linear(v("a"), v("b"), f())))
	case "cubic":
		o["y"] = q20(float64(interpolation.Cubic(v("a"), v("b"), v("c"), v("e"), f())))
		o["h"] = q20(float64(interpolation.Hermite(v("a"), v("b"), v("c"), v("e"), f())))
	case "window":
		b := f64ths(o.IL("b"))
		var y float32
		if o.S("k") == "sinc" {
			y = interpolation.Sinc(b, o.I("i"), f(), o.I("n"))
		} else {
			y = interpolation.Lanczos(b, o.I("i"), f(), o.I("n"))
		}
		o["y"] = q20(float64(y))
	case "resample":
		b, out := f64ths(o.IL("b")), make([]float32, o.I("cap"))
		for i := range out {
			out[i] = 7
		}
		r := float32(o.I("r")) / 16
		n := 0
		if o.B("cubic") {
			n = interpolation.ResampleCubic(b, r, out)
		} else {
			n = interpolation.Resample(b, r, out)
		}
		o["y"] = q20s(out)
		return n
	case "smooth":
		b := f64ths(o.IL("b"))
		if len(b) == 1 {
			b[0] = interpolation.Smooth(b[0], v("a"), f())
		} else {
			interpolation.SmoothBuffer(b, v("a"), f())
		}
		o["y"] = q20s(b)
	case "allpass":
		b := f64ths(o.IL("b"))
		for i, x := range o.IL("fs") {
			b[i] = s.ap.Process(b[i], float32(x)/16)
		}
		o["y"] = q20s(b)
	case "reset":
		s.ap.Reset()
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genInterp(r *rand.Rand, i int, tier string) []vh.Op {
	list := func(n int) []int {
		b := make([]int, n)
		for j := range b {
			b[j] = r.Intn(257) - 128
		}
		return b
	}
	x := func() int { return r.Intn(257) - 128 }
	var ops []vh.Op
	for len(ops) < 30 {
		switch r.Intn(8) {
		case 0:
			ops = append(ops, vh.Op{"op": "linear", "a": x(), "b": x(), "f": r.Intn(17)})
		case 1:
			ops = append(ops, vh.Op{"op": "cubic", "a": x(), "b": x(), "c": x(), "e": x(), "f": r.Intn(17)})
		case 2:
			n := 1 + r.Intn(24)
			ops = append(ops, vh.Op{"op": "window", "k": []string{"sinc", "lanczos"}[r.Intn(2)], "b": list(n), "i": r.Intn(n+6) - 3, "f": r.Intn(16), "n": r.Intn(10)})
		case 3, 4:
			cubic := r.Intn(2) == 0
			rat := []int{4, 8, 16, 32, 64}[r.Intn(5)]
			if !cubic && r.Intn(2) == 0 {
				rat = r.Intn(60) - 2
			}
			ops = append(ops, vh.Op{"op": "resample", "cubic": cubic, "b": list(r.Intn(16)), "r": rat, "cap": r.Intn(30)})
		case 5:
			ops = append(ops, vh.Op{"op": "smooth", "b": list(r.Intn(6)), "a": x(), "f": r.Intn(17)})
		case 6:
			n := r.Intn(12)
			fs, k, vary := make([]int, n), r.Intn(16), r.Intn(3)
			for j := range fs {
				fs[j] = k
				if vary == 0 {
					fs[j] = r.Intn(16)
				}
			}
			ops = append(ops, vh.Op{"op": "allpass", "b": list(n), "fs": fs})
		default:
			if r.Intn(3) == 0 {
				ops = append(ops, vh.Op{"op": "reset"})
			}
		}
	}
	return ops
}

type scaleSubj struct {
	p *utility.SmoothParameter
	n int
}

func (s *scaleSubj) Do(o vh.Op) any {
	s.n++
	switch op := o.S("op"); op {
	case "fn":
		a, b := float64(o.I("a"))/64, float64(o.I("b"))/64
		x, k := float64(o.I("x")), float64(o.I("k"))
		pow2 := func(x float64) float64 {
			if x < 0 {
				return 0
			}
			return math.Exp2(-x)
		}
		y := 0.0
		switch o.S("f") {
		case "scale":
			y = utility.ScaleParameter(x/1024, a, b)
		case "unscale":
			y = utility.UnscaleParameter(x/64, a, b)
		case "exp":
			y = utility.ScaleParameterExp(x/256, a, a*math.Exp2(k))
		case "expline":
			y = utility.ScaleParameterExp(x/1024, a, b)
		case "unexp":
			y = utility.UnscaleParameterExp(a*math.Exp2(x/256), a, a*math.Exp2(k))
		case "unline":
			y = utility.UnscaleParameterExp(x/64, a, b)
		case "clamp":
			y = utility.ClampParameter(x/64, a, b)
		case "curve":
			y = utility.ScaleParameterWithCurve(pow2(x), a, b, k/16)
		case "skew":
			y = utility.SkewParameter(pow2(x), k/4)
		case "quantize":
			y = utility.QuantizeParameter(x/1024, int(k))
		case "tobi":
			y = utility.UnipolarToBipolar(x / 1024)
		case "touni":
			y = utility.BipolarToUnipolar(x / 1024)
		}
		o["y"] = q20(y)
	case "smooth":
		n := float64(o.I("n")) / 10
		sr := []float64{8000, 44100, 48000}[s.n%3]
		s.p = utility.NewSmoothParameter(n/sr, sr)
	case "target":
		s.p.SetTarget(float64(o.I("x")) / 1024)
	case "jump":
		s.p.SetImmediate(float64(o.I("x")) / 1024)
	case "process":
		y := make([]int, o.I("n"))
		for i := range y {
			y[i] = q20(s.p.Process())
		}
		o["y"] = y
	case "current":
		return []any{q20(s.p.GetCurrent()), s.p.IsSmoothing()}
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genScale(r *rand.Rand, i int, tier string) []vh.Op {
	var ops []vh.Op
	add := func(o vh.Op) { ops = append(ops, o) }
	if i%2 == 0 {
		for len(ops) < 40 {
			f := []string{"scale", "unscale", "exp", "expline", "unexp", "unline", "clamp", "curve", "skew", "quantize", "tobi", "touni"}[r.Intn(12)]
			a, b, x, k := r.Intn(2001)-1000, r.Intn(2001)-1000, r.Intn(1025), 0
			if r.Intn(6) == 0 {
				b = a
			}
			switch f {
			case "scale", "quantize", "tobi", "touni":
				if r.Intn(4) == 0 {
					x = r.Intn(4097) - 2048
				}
				k = r.Intn(14)
			case "unscale":
				if d := b - a; d > -4 && d < 4 {
					b = a
				}
				x = a + r.Intn(1025) - 256
			case "exp":
				a, x, k = 64+r.Intn(400), r.Intn(257), r.Intn(9)-4
			case "expline", "unline":
				if a > 0 {
					b = -b
				}
				if a > 0 && b > 0 {
					a = 0
				}
				if f == "unline" {
					if d := b - a; d > -4 && d < 4 {
						a, b = -100, 100
					}
					x = a + r.Intn(1025) - 256
				}
			case "unexp":
				a, k = 64+r.Intn(400), r.Intn(9)-4
				x = r.Intn(1025) * k / 4
			case "clamp":
				x = r.Intn(3001) - 1500
				if a > b {
					a, b = b, a
				}
			case "curve":
				x, k = r.Intn(8)-1, 4+r.Intn(40)
			case "skew":
				x, k = r.Intn(8)-1, []int{1, 2, 4, 8, 16}[r.Intn(5)]
			}
			add(vh.Op{"op": "fn", "f": f, "a": a, "b": b, "x": x, "k": k})
		}
		return ops
	}
	times := []int{8, 16, 40, 80, 160, 480, 960, 1600, 4800, 16000, 48000}
	add(vh.Op{"op": "smooth", "n": times[r.Intn(len(times))]})
	for len(ops) < 30 {
		switch r.Intn(7) {
		case 0, 1:
			add(vh.Op{"op": "target", "x": r.Intn(4097) - 2048})
		case 2:
			add(vh.Op{"op": "jump", "x": r.Intn(4097) - 2048})
		case 3, 4:
			add(vh.Op{"op": "process", "n": r.Intn(40)})
		default:
			add(vh.Op{"op": "current"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "interp", New: func() vh.Subject { return &interpSubj{interpolation.NewAllPass()} }, Gen: genInterp, Quick: 1200, Thorough: 8000})
	vh.Register(&vh.Domain{Name: "scaling", New: func() vh.Subject { return &scaleSubj{} }, Gen: genScale, Quick: 1200, Thorough: 8000})
}
