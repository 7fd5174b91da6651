package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/vh"
)

type specSubj struct {
	n  int
	sr float64
	f  *analysis.FFT
	sa *analysis.SpectrumAnalyzer
}

func floats(xs []int) []float64 {
	r := make([]float64, len(xs))
	for i, x := range xs {
		r[i] = float64(x)
	}
	return r
}

func q20all(xs []float64) []int {
	r := make([]int, len(xs))
	for i, x := range xs {
		r[i] = q20x(x)
	}
	return r
}

func qdbs(xs []float64) []int {
	r := make([]int, len(xs))
	for i, x := range xs {
		r[i] = qdb(x)
	}
	return r
}

func complexes(l []any) (c []complex128, re, im []float64) {
	for _, x := range l {
		v := vh.ToList(x)
		a, b := float64(vh.ToInt(v[0])), float64(vh.ToInt(v[1]))
		c, re, im = append(c, complex(a, b)), append(re, a), append(im, b)
	}
	return
}

func (s *specSubj) Do(o vh.Op) any {
	none := []int{}
	var got any = none
	switch o.S("op") {
	case "fft":
		s.n, s.sr = o.I("size"), float64(o.I("sr"))
		s.f = analysis.NewFFT(s.n, analysis.WindowFunc(o.I("win")))
		return none
	case "analyzer":
		s.n, s.sr = o.I("size"), float64(o.I("sr"))
		s.sa = analysis.NewSpectrumAnalyzer(s.n, s.sr, analysis.WindowFunc(o.I("win")))
		return none
	case "set":
		x := o.I("x")
		switch o.S("n") {
		case "hop":
			s.sa.SetHopSize(x)
		case "smooth":
			s.sa.SetSmoothing(float64(x) / (1 << 20))
			s.sa.SetSmoothing(1.01)
			s.sa.SetSmoothing(-0.01)
		}
		return none
	case "averaging":
		s.sa.SetAveraging(analysis.AveragingMode(o.I("m")), o.I("n"))
		return none
	case "freqs":
		s.sa.SetFrequencyRange(float64(o.I("lo")), float64(o.I("hi")))
		return none
	case "reset":
		s.sa.Reset()
		return none
	case "transform":
		c, _, _ := complexes(o.L("xs"))
		out := s.f.ForwardComplex(c)
		g := make([][]int, len(out))
		for i, x := range out {
			g[i] = []int{q20x(real(x)), q20x(imag(x))}
		}
		got = g
	case "forward":
		xs := floats(o.IL("xs"))
		m, ph := s.f.Forward(xs)
		db := s.f.GetMagnitudeDB()
		pw := analysis.PowerSpectrum(m)
		g := make([][]int, len(m))
		for i := range m {
			g[i] = []int{q20x(m[i]), q20x(ph[i] / (2 * math.Pi)), qdb(db[i]), q20x(pw[i])}
		}
		got = g
	case "inverse":
		_, re, im := complexes(o.L("xs"))
		got = q20all(s.f.Inverse(re, im))
	case "back":
		xs := o.IL("xs")
		c := make([]complex128, len(xs))
		for i, x := range xs {
			c[i] = complex(float64(x), 0)
		}
		out := s.f.ForwardComplex(c)
		re, im := make([]float64, len(out)), make([]float64, len(out))
		for i, x := range out {
			re[i], im[i] = real(x), imag(x)
		}
		got = q20all(s.f.Inverse(re, im))
	case "cross":
		got = q20all(analysis.CrossCorrelation(floats(o.IL("a")), floats(o.IL("b"))))
	case "hann":
		got = q20all(analysis.ApplyHannWindow(floats(o.IL("xs"))))
	case "process":
		ready := s.sa.Process(floats(o.IL("xs")))
		sp := s.sa.GetSpectrum()
		g := q20all(sp)
		for i := range sp {
			sp[i] = 99 // the caller's own copy
		}
		got = []any{ready, g}
	case "range":
		got = []any{q20all(s.sa.GetSpectrumInRange()), qdbs(s.sa.GetSpectrumDBInRange())}
	case "db":
		got = qdbs(s.sa.GetSpectrumDB())
	case "peak":
		f, m := s.sa.GetPeakFrequency()
		got = []int{exact(f), q20x(m)}
	case "band":
		got = qx(s.sa.GetBandEnergy(float64(o.I("lo")), float64(o.I("hi"))), 1024)
	case "bands": // in hundredths
		l := analysis.StandardOctaveBands()
		if o.B("third") {
			l = analysis.StandardThirdOctaveBands()
		}
		xs := make([]int, len(l))
		for i, f := range l {
			xs[i] = qx(f, 100)
		}
		got = xs
	case "octaves":
		got = q20all(s.sa.GetOctaveBands(floats(o.IL("cs"))))
	case "bins":
		if s.sa != nil {
			got = []int{exact(s.sa.GetFrequencyForBin(o.I("k"))), s.sa.GetBinForFrequency(float64(o.I("f")))}
		} else {
			got = []int{exact(s.f.GetFrequencyBin(o.I("k"), s.sr)), o.I("f") * s.n / int(s.sr)}
		}
	}
	o["got"] = got
	return got
}

func genSpectrum(r *rand.Rand, i int, tier string) []vh.Op {
	ints := func(n, m int) []int {
		xs := make([]int, n)
		if r.Intn(8) == 0 {
			return xs
		}
		for i := range xs {
			xs[i] = r.Intn(2*m+1) - m
		}
		return xs
	}
	n := []int{2, 4, 8, 16}[r.Intn(4)]
	w := r.Intn(7)
	if r.Intn(3) == 0 {
		w = 0
	}
	if i%2 == 0 {
		ops := []vh.Op{{"op": "fft", "size": n, "win": w, "sr": n * (1 + r.Intn(40))}}
		cx := func(k int) []any {
			l := make([]any, k)
			for j := range l {
				l[j] = ints(2, 6)
			}
			return l
		}
		for len(ops) < 9 {
			k := n
			if r.Intn(3) == 0 {
				k = r.Intn(n + 3)
			}
			switch r.Intn(7) {
			case 0:
				ops = append(ops, vh.Op{"op": "transform", "xs": cx(k)})
			case 1:
				ops = append(ops, vh.Op{"op": "forward", "xs": ints(k, 3)})
			case 2:
				ops = append(ops, vh.Op{"op": "inverse", "xs": cx(k)})
			case 3:
				if w == 0 {
					if k > n {
						k = n
					}
					ops = append(ops, vh.Op{"op": "back", "xs": ints(k, 6)})
				}
			case 4:
				k := 1 + r.Intn(7)
				ops = append(ops, vh.Op{"op": "cross", "a": ints(k, 6), "b": ints(k, 6)})
			case 5:
				ops = append(ops, vh.Op{"op": "hann", "xs": ints(2+r.Intn(8), 6)})
			case 6:
				ops = append(ops, vh.Op{"op": "bins", "k": r.Intn(n), "f": r.Intn(100)})
			}
		}
		return ops
	}
	bw := 1 + r.Intn(6)
	sr := n * bw
	ops := []vh.Op{{"op": "analyzer", "size": n, "win": w, "sr": sr}}
	if r.Intn(4) > 0 {
		ops = append(ops, vh.Op{"op": "freqs", "lo": r.Intn(bw + 1), "hi": sr})
	}
	for len(ops) < 14 {
		switch r.Intn(14) {
		case 0:
			ops = append(ops, vh.Op{"op": "set", "n": "hop", "x": r.Intn(n + 3)})
		case 1:
			ops = append(ops, vh.Op{"op": "set", "n": "smooth", "x": r.Intn(9) * 131072})
		case 2:
			ops = append(ops, vh.Op{"op": "averaging", "m": r.Intn(4), "n": r.Intn(5)})
		case 3:
			ops = append(ops, vh.Op{"op": "freqs", "lo": r.Intn(sr) - 2, "hi": r.Intn(sr)})
		case 4:
			if r.Intn(2) == 0 {
				ops = append(ops, vh.Op{"op": "reset"})
			}
		case 5:
			ops = append(ops, vh.Op{"op": "range"})
		case 6:
			ops = append(ops, vh.Op{"op": []string{"db", "peak"}[r.Intn(2)]})
		case 7:
			lo := r.Intn(sr) - sr/8
			if r.Intn(4) == 0 {
				ops = append(ops, vh.Op{"op": "bands", "third": r.Intn(2) == 0})
			}
			ops = append(ops, vh.Op{"op": "band", "lo": lo, "hi": max(0, lo+r.Intn(sr))})
		case 8:
			cs := make([]int, 1+r.Intn(3))
			for i := range cs {
				cs[i] = 1 + r.Intn(sr)
			}
			ops = append(ops, vh.Op{"op": "octaves", "cs": cs})
		case 9:
			ops = append(ops, vh.Op{"op": "bins", "k": r.Intn(n), "f": r.Intn(2 * sr)})
		default:
			ops = append(ops, vh.Op{"op": "process", "xs": ints(r.Intn(2*n+1), 2)})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "spectrum", New: func() vh.Subject { return &specSubj{} }, Gen: genSpectrum, Quick: 1200, Thorough: 6000})
}
