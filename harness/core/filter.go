package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/vh"
)

type filterSubj struct {
	k      string
	sr     float64
	bi     *filter.Biquad
	svf    *filter.SVF
	multi  *filter.MultiModeSVF
	probe  *filter.SVF
	dc     *utility.DCBlocker
	simple *utility.SimpleDCBlocker
	n, ch  int
}

var filterFreqs = [][2]float64{{100, 8000}, {1000, 8000}, {2000, 8000}, {3500, 8000}, {440, 44100}, {5000, 44100}, {200, 48000}, {1000, 48000}, {8000, 48000}, {12000, 48000}, {20000, 48000}}

func intsOf(v any) []int {
	l := vh.ToList(v)
	r := make([]int, len(l))
	for i, x := range l {
		r[i] = vh.ToInt(x)
	}
	return r
}

func (s *filterSubj) Do(o vh.Op) any {
	s.n++
	switch op := o.S("op"); op {
	case "biquad":
		s.k, s.ch = op, o.I("n")
		s.bi = filter.NewBiquad(s.ch)
	case "svf":
		s.k, s.ch = op, o.I("n")
		s.probe = filter.NewSVF(s.ch)
		if o.B("multi") {
			s.multi = filter.NewMultiModeSVF(s.ch)
			s.svf = &s.multi.SVF
		} else {
			s.svf = filter.NewSVF(s.ch)
		}
	case "dc":
		s.k, s.ch, s.sr = op, o.I("n"), float64(o.I("sr"))
		s.dc = utility.NewDCBlocker(s.ch, float32(o.I("f")), s.sr)
	case "simple":
		s.k, s.ch = op, 1
		s.simple = utility.NewSimpleDCBlocker(float64(o.I("sr")))
	case "design":
		w := filterFreqs[o.I("w")-1]
		f, sr, q, g := w[0], w[1], float64(o.I("q"))/4, float64(o.I("g"))
		switch o.S("t") {
		case "lowpass":
			s.bi.SetLowpass(sr, f, q)
		case "highpass":
			s.bi.SetHighpass(sr, f, q)
		case "bandpass":
			s.bi.SetBandpass(sr, f, q)
		case "notch":
			s.bi.SetNotch(sr, f, q)
		case "allpass":
			s.bi.SetAllpass(sr, f, q)
		case "peak":
			s.bi.SetPeakingEQ(sr, f, q, g)
		case "lowshelf":
			s.bi.SetLowShelf(sr, f, q, g)
		case "highshelf":
			s.bi.SetHighShelf(sr, f, q, g)
		default:
			panic("harness: unknown type")
		}
	case "raw":
		var c [6]float32
		for i, x := range o.IL("c") {
			c[i] = float32(x) / 16
		}
		s.bi.SetCoefficients(c[0], c[1], c[2], c[3], c[4], c[5])
	case "tune":
		wi, q := o.I("w"), float64(o.I("q"))/4
		for _, f := range []*filter.SVF{s.svf, s.probe} {
			if wi == 0 {
				f.SetQ(q)
				continue
			}
			w := filterFreqs[wi-1]
			if q == 0 {
				f.SetFrequency(w[1], w[0])
			} else if f == s.svf && s.n%2 == 0 {
				f.SetFrequency(w[1], w[0])
				f.SetQ(q)
			} else {
				f.SetFrequencyAndQ(w[1], w[0], q)
			}
		}
	case "mode":
		s.multi.SetMode(float64(o.I("x")) / 64)
	case "cutoff":
		s.dc.SetCutoff(float32(o.I("f")), s.sr)
	case "reset":
		switch s.k {
		case "biquad":
			s.bi.Reset()
		case "svf":
			s.svf.Reset()
			s.probe.Reset()
		case "dc":
			s.dc.Reset()
		default:
			s.simple.Reset()
		}
	case "process":
		ch := o.I("ch")
		var bufs [][]float32
		for _, l := range o.L("bs") {
			bufs = append(bufs, in10(intsOf(l), 0))
		}
		os := make([]any, len(bufs))
		for i := range os {
			os[i] = []any{}
		}
		switch s.k {
		case "biquad":
			if ch == 0 && (len(bufs) != 1 || s.n%2 == 0) {
				s.bi.ProcessMulti(bufs)
			} else {
				for i, b := range bufs {
					s.bi.Process(b, ch+i)
				}
			}
		case "dc":
			switch {
			case ch == 0 && len(bufs) == 2 && s.ch >= 2 && s.n%2 == 0:
				s.dc.ProcessStereo(bufs[0], bufs[1])
			case ch == 0 && len(bufs) != 1:
				s.dc.ProcessMultiChannel(bufs)
			default:
				for i, b := range bufs {
					if s.n%2 == 0 {
						s.dc.ProcessBuffer(b, ch+i)
						continue
					}
					for j := range b {
						b[j] = s.dc.Process(b[j], ch+i)
					}
				}
			}
		case "simple":
			for _, b := range bufs {
				if s.n%2 == 0 {
					s.simple.ProcessBuffer(b)
					continue
				}
				for j := range b {
					b[j] = s.simple.Process(b[j])
				}
			}
		case "svf":
			m := o.S("m")
			mix := make([]float32, 4)
			for i, x := range o.IL("mix") {
				mix[i] = float32(x) / 16
			}
			for i, b := range bufs {
				all := make([]any, len(b))
				for j, x := range b {
					r := s.probe.ProcessSample(x, ch+i)
					all[j] = []int{q20(float64(r.Lowpass)), q20(float64(r.Highpass)), q20(float64(r.Bandpass)), q20(float64(r.Notch))}
				}
				os[i] = all
				switch m {
				case "low":
					s.svf.ProcessLowpass(b, ch+i)
				case "high":
					s.svf.ProcessHighpass(b, ch+i)
				case "band":
					s.svf.ProcessBandpass(b, ch+i)
				case "notch":
					s.svf.ProcessNotch(b, ch+i)
				case "mixed":
					s.svf.ProcessMixed(b, ch+i, mix[0], mix[1], mix[2], mix[3])
				case "morph":
					s.multi.Process(b, ch+i)
				}
			}
		}
		y := make([]any, len(bufs))
		for i, b := range bufs {
			y[i] = q20s(b)
		}
		o["y"], o["os"] = y, os
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genFilter(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"biquad", "biquad", "svf", "svf", "dc", "simple"}[i%6]
	n := 1 + r.Intn(3)
	op := vh.Op{"op": k, "n": n}
	var ops []vh.Op
	add := func(o vh.Op) { ops = append(ops, o) }
	fs := []int{1, 5, 10, 20, 50, 100, 400}
	multi := false
	switch k {
	case "svf":
		multi = r.Intn(2) == 0
		op["multi"] = multi
	case "dc":
		op["f"], op["sr"] = fs[r.Intn(7)], []int{8000, 44100, 48000}[r.Intn(3)]
	case "simple":
		n = 1
		op = vh.Op{"op": k, "sr": []int{8000, 44100, 48000}[r.Intn(3)]}
	}
	add(op)
	q := func() int { return 2 + r.Intn(20) }
	set := func() {
		switch k {
		case "biquad":
			if r.Intn(8) == 0 { // any coefficients whose poles are stable
				a0 := 16 * (1 + r.Intn(2))
				add(vh.Op{"op": "raw", "c": []int{r.Intn(32) - 16, r.Intn(32) - 16, r.Intn(32) - 16, a0, r.Intn(a0) - a0/2, r.Intn(a0/2) - a0/4}})
				return
			}
			add(vh.Op{"op": "design", "t": []string{"lowpass", "highpass", "bandpass", "notch", "allpass", "peak", "lowshelf", "highshelf"}[r.Intn(8)], "w": 1 + r.Intn(11), "q": q(),
				"g": 2 * (r.Intn(13) - 6)})
		case "svf":
			w, qq := 1+r.Intn(11), q()
			switch r.Intn(4) {
			case 0:
				w = 0
			case 1:
				qq = 0
			}
			add(vh.Op{"op": "tune", "w": w, "q": qq})
			if multi && r.Intn(2) == 0 {
				add(vh.Op{"op": "mode", "x": r.Intn(256) - 96})
			}
		case "dc":
			add(vh.Op{"op": "cutoff", "f": fs[r.Intn(7)]})
		}
	}
	switch k {
	case "biquad":
		set()
	case "svf":
		add(vh.Op{"op": "tune", "w": 1 + r.Intn(11), "q": q()})
	}
	for len(ops) < 24 {
		if r.Intn(4) == 0 {
			set()
		}
		if r.Intn(10) == 0 {
			add(vh.Op{"op": "reset"})
		}
		ch := r.Intn(n)
		bn := 1
		if r.Intn(2) == 0 {
			ch, bn = 0, r.Intn(n+2)
		}
		if k == "dc" && r.Intn(8) == 0 {
			ch = n + r.Intn(2)
		}
		if bn > n && k != "biquad" && k != "dc" {
			bn = n
		}
		bs := []any{}
		for j := 0; j < bn; j++ {
			b := make([]int, r.Intn(14))
			amp, c := 1+r.Intn(1000), r.Intn(3)
			for x := range b {
				switch c {
				case 0:
					b[x] = r.Intn(2*amp+1) - amp
				case 1:
					b[x] = amp
				default:
					if x == 0 {
						b[x] = amp
					}
				}
			}
			bs = append(bs, b)
		}
		m := []string{"low", "high", "band", "notch", "mixed"}[r.Intn(5)]
		if multi && r.Intn(2) == 0 {
			m = "morph"
		}
		add(vh.Op{"op": "process", "ch": ch, "bs": bs, "m": m, "mix": []int{r.Intn(33) - 16, r.Intn(33) - 16, r.Intn(33) - 16, r.Intn(33) - 16}})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "filter", New: func() vh.Subject { return &filterSubj{} }, Gen: genFilter, Quick: 1080, Thorough: 6000})
}
