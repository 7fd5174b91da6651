package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"verif/vh"
)

// effect is what the four distortions have in common.
type effect interface {
	Process(float64) float64
	ProcessBlock(in, out []float64)
	ProcessStereo(inL, inR, outL, outR []float64)
	SetMix(float64)
	SetOutput(float64)
}

type distSubj struct {
	e effect
	n int
}

var curves = map[string]distortion.CurveType{"hard": distortion.CurveHardClip, "soft": distortion.CurveSoftClip, "saturate": distortion.CurveSaturate, "fold": distortion.CurveFoldback,
	"asym": distortion.CurveAsymmetric, "sine": distortion.CurveSine, "exp": distortion.CurveExponential, "plain": distortion.CurveType(99)}
var dithers = map[string]distortion.DitherType{"none": distortion.DitherNone, "white": distortion.DitherWhite, "tri": distortion.DitherTriangular}

func (s *distSubj) Do(o vh.Op) any {
	s.n++
	switch op := o.S("op"); op {
	case "new":
		switch o.S("k") {
		case "shaper":
			s.e = distortion.NewWaveshaper()
		case "crusher":
			s.e = distortion.NewBitcrusher(48000)
		case "tube":
			s.e = distortion.NewTubeSaturation()
		case "tape":
			s.e = distortion.NewTapeSaturation(8000)
		}
	case "set":
		f := o.S("f")
		v := 0.0
		if f != "curve" && f != "dither" && f != "alias" {
			v = float64(o.I("v"))
		}
		switch f {
		case "mix":
			s.e.SetMix(v / 64)
			return []int{}
		case "out":
			s.e.SetOutput(v / 64)
			return []int{}
		}
		switch e := s.e.(type) {
		case *distortion.Waveshaper:
			switch f {
			case "curve":
				e.SetCurveType(curves[o.S("v")])
			case "drive":
				e.SetDrive(v / 64)
			case "asym":
				e.SetAsymmetry(v / 64)
			}
		case *distortion.Bitcrusher:
			switch f {
			case "bits":
				e.SetBitDepth(v)
			case "factor":
				e.SetSampleRateReduction(v / 4)
			case "alias":
				e.SetAntiAlias(o.B("v"))
			case "dither":
				e.SetDither(dithers[o.S("v")])
			}
		case *distortion.TubeSaturation:
			switch f {
			case "warmth":
				e.SetWarmth(v / 64)
			case "harm":
				e.SetHarmonics(v / 64)
			case "bias":
				e.SetBias(v / 64)
			case "hyst":
				e.SetHysteresis(v / 64)
			}
		case *distortion.TapeSaturation:
			switch f {
			case "sat":
				e.SetSaturation(v / 64)
			case "comp":
				e.SetCompression(v / 64)
			case "flutter":
				e.SetFlutter(v / 64)
			case "warmth":
				e.SetWarmth(v / 64)
			}
		}
	case "reset":
		if r, ok := s.e.(interface{ Reset() }); ok {
			r.Reset()
		}
	case "process":
		in, out := [][]float64{}, [][]float64{}
		for _, l := range o.L("xs") {
			b := []float64{}
			for _, x := range intsOf(l) {
				b = append(b, float64(x)/1024)
			}
			in, out = append(in, b), append(out, make([]float64, len(b)))
		}
		if s.n%3 == 0 {
			out = in
		}
		switch {
		case len(in) == 2:
			s.e.ProcessStereo(in[0], in[1], out[0], out[1])
		case s.n%2 == 0:
			s.e.ProcessBlock(in[0], out[0])
		default:
			for i, x := range in[0] {
				out[0][i] = s.e.Process(x)
			}
		}
		y := make([]any, len(out))
		for i, b := range out {
			l := make([]int, len(b))
			for j, x := range b {
				l[j] = q20(x)
			}
			y[i] = l
		}
		o["y"] = y
	case "even":
		b := o.I("b")
		e := distortion.NewBitcrusher(48000)
		e.SetBitDepth(float64(b))
		e.SetDither(dithers[o.S("kind")])
		step := math.Ldexp(2, -b)
		x := float64(o.I("x")) * step
		for i := 0; i < o.I("skip"); i++ {
			e.Process(x)
		}
		sum, off := 0.0, 0.0
		const n = 2000
		for i := 0; i < n; i++ {
			y := e.Process(x) - x
			sum += y
			off += math.Abs(y)
		}
		o["mean"], o["off"] = q20(sum/n), q20(off/n)
	case "fn":
		x, v := float64(o.I("x"))/1024, o.I("v")
		y := 0.0
		switch o.S("f") {
		case "sigmoid":
			y = distortion.Sigmoid(x, float64(v)/64)
		case "poly":
			c := []float64{}
			for _, k := range o.IL("c") {
				c = append(c, float64(k)/16)
			}
			y = distortion.Polynomial(x, c)
		case "cheb":
			y = distortion.ChebyshevPolynomial(x, v)
		case "steps":
			y = distortion.QuantizeToSteps(x, v)
		case "fold":
			y = distortion.FoldbackDistortion(x, float64(v)/64)
		case "gate":
			y = distortion.GateEffect(x, float64(v)/64)
		}
		o["y"] = q20(y)
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genDist(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	add := func(o vh.Op) { ops = append(ops, o) }
	if i%9 == 8 {
		for len(ops) < 60 {
			if len(ops)%20 == 0 {
				b := 3 + r.Intn(10)
				add(vh.Op{"op": "even", "b": b, "kind": []string{"white", "tri"}[r.Intn(2)], "x": r.Intn(1<<(b-2)) - 1<<(b-3), "skip": r.Intn(1000)})
			}
			f := []string{"sigmoid", "poly", "cheb", "steps", "fold", "gate"}[r.Intn(6)]
			o := vh.Op{"op": "fn", "f": f, "x": r.Intn(4097) - 2048, "v": 0, "c": []int{}}
			switch f {
			case "sigmoid":
				o["v"] = r.Intn(800) - 50
			case "poly":
				c := make([]int, r.Intn(6))
				for j := range c {
					c[j] = r.Intn(65) - 32
				}
				o["c"] = c
			case "cheb":
				o["v"], o["x"] = r.Intn(9), r.Intn(2049)-1024
			case "steps":
				o["v"] = r.Intn(18)
			case "fold", "gate":
				o["v"] = r.Intn(100) - 10
				if r.Intn(3) == 0 {
					o["x"] = 16 * o["v"].(int) * (r.Intn(5) - 2)
				}
			}
			add(o)
		}
		return ops
	}
	k := []string{"shaper", "crusher", "tube", "tape"}[i%9%4]
	add(vh.Op{"op": "new", "k": k})
	fields := map[string][]string{"shaper": {"curve", "curve", "drive", "asym"}, "crusher": {"bits", "factor", "factor", "alias", "dither"}, "tube": {"warmth", "harm", "bias", "hyst"}, "tape": {"sat", "comp", "flutter", "warmth"}}[k]
	names := []string{"hard", "soft", "saturate", "fold", "asym", "sine", "exp", "plain"}
	set := func() {
		f := fields[r.Intn(len(fields))]
		if r.Intn(6) == 0 {
			f = []string{"mix", "out"}[r.Intn(2)]
		}
		var v any = r.Intn(65)
		if r.Intn(8) == 0 {
			v = r.Intn(300) - 100
		}
		switch f {
		case "curve":
			v = names[r.Intn(8)]
		case "drive":
			v = []int{0, 64, 64, 100, 128, 256, 640, 6400, 9000}[r.Intn(9)]
		case "asym", "bias":
			v = r.Intn(161) - 80
		case "bits":
			v = []int{-1, 1, 2, 3, 4, 6, 8, 11, 12, 16, 18, 24, 31, 32, 40}[r.Intn(15)]
		case "factor":
			v = []int{0, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 50, 400, 600}[r.Intn(16)]
		case "alias":
			v = r.Intn(2) == 0
		case "dither":
			v = []string{"none", "none", "white", "tri"}[r.Intn(4)]
		}
		add(vh.Op{"op": "set", "f": f, "v": v})
	}
	lim := 2048
	if k == "tube" {
		lim = 1280
	}
	for len(ops) < 24 {
		for r.Intn(2) == 0 {
			set()
		}
		if r.Intn(10) == 0 {
			add(vh.Op{"op": "reset"})
		}
		n := r.Intn(30)
		xs := []any{}
		amp, kind := 1+r.Intn(lim), r.Intn(4)
		for c := 0; c < 1+r.Intn(2); c++ {
			b := make([]int, n)
			for j := range b {
				switch kind {
				case 0:
					b[j] = amp
				case 1:
					if j == 0 {
						b[j] = amp
					}
				case 2:
					b[j] = int(float64(amp) * math.Sin(float64(j)*0.3+float64(c)))
				default:
					b[j] = r.Intn(2*amp+1) - amp
				}
				if c == 1 && kind < 2 {
					b[j] = -b[j] / 2
				}
			}
			xs = append(xs, b)
		}
		add(vh.Op{"op": "process", "xs": xs})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "dist", New: func() vh.Subject { return &distSubj{} }, Gen: genDist, Quick: 720, Thorough: 6000})
}
