package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"verif/vh"
)

const su = 65536

type rawLine interface {
	Write(float32)
	Read(float64) float32
	ReadMs(float64) float32
	Tap(float64) float32
	Reset()
}

type delaySubj struct {
	k    string
	rate float64
	raw  rawLine
	n    int
}

func toU(x float32) int { return exact(math.Round(float64(x)*su*64) / 64) }

func (s *delaySubj) Do(o vh.Op) any {
	none := []int{}
	in := func(x int) float32 { return float32(x) / su }
	buf := func(xs []int) []float32 {
		b := []float32{}
		for _, x := range xs {
			b = append(b, in(x))
		}
		return b
	}
	outs := func(b []float32) []int {
		r := []int{}
		for _, x := range b {
			r = append(r, toU(x))
		}
		return r
	}
	s.n++
	switch o.S("op") {
	case "new":
		s.k = o.S("k")
		s.rate = float64(o.I("rate")) // samples per ms
		sr := s.rate * 1000
		sec := float64(o.I("max")) / sr
		for int(sec*sr) < o.I("max") { // the nearest duration that holds this many samples
			sec = math.Nextafter(sec, 1e9)
		}
		switch s.k {
		case "line":
			s.raw = delay.New(sec, sr)
		case "comb":
			s.raw = delay.NewComb(sec, sr)
		case "allpass":
			s.raw = delay.NewAllpass(sec, sr)
		case "taps":
			s.raw = delay.NewMultiTap(sec, sr, o.I("n"))
		case "mod":
			m := delay.NewModulated(sec, sr)
			m.SetLFO(1, 0)
			s.raw = m
		}
	case "process":
		d := float64(o.I("d")) / 4
		x := in(o.I("x"))
		switch l := s.raw.(type) {
		case *delay.Line:
			if s.n%2 == 0 {
				return []int{toU(l.ProcessMs(x, d/s.rate))}
			}
			return []int{toU(l.Process(x, d))}
		case *delay.CombDelay:
			return []int{toU(l.Process(x, d))}
		case *delay.AllpassDelay:
			return []int{toU(l.Process(x, d))}
		case *delay.MultiTapDelay:
			return []int{toU(l.Process(x, d))}
		}
	case "block":
		d := float64(o.I("d")) / 4
		b := buf(o.IL("xs"))
		s.raw.(interface {
			ProcessBuffer([]float32, float64)
		}).ProcessBuffer(b, d)
		return outs(b)
	case "mix":
		b := buf(o.IL("xs"))
		s.raw.(*delay.Line).ProcessBufferMix(b, float64(o.I("d"))/4, float32(o.I("g"))/4)
		return outs(b)
	case "write":
		s.raw.Write(in(o.I("x")))
	case "read":
		d := float64(o.I("d")) / 4
		a, b, c := toU(s.raw.Read(d)), toU(s.raw.Tap(d)), toU(s.raw.ReadMs(d/s.rate))
		if a != b || a != c {
			return []int{a, b, c}
		}
		return []int{a}
	case "fb":
		s.raw.(interface{ SetFeedback(float32) }).SetFeedback(float32(o.I("g")) / 4)
	case "damp":
		s.raw.(*delay.CombDelay).SetDamp(float32(o.I("g")) / 4)
	case "reset":
		s.raw.Reset()
	case "center":
		s.raw.(*delay.ModulatedDelay).SetCenterDelay(float64(o.I("d")) / 4 / s.rate)
	case "mod":
		m := s.raw.(*delay.ModulatedDelay)
		b := buf(o.IL("xs"))
		if s.n%2 == 0 {
			m.ProcessBuffer(b)
		} else {
			for i := range b {
				b[i] = m.Process(b[i])
			}
		}
		return outs(b)
	case "taps":
		ts := []delay.TapOutput{}
		for _, x := range o.L("ts") {
			t := vh.ToOp(x)
			ts = append(ts, delay.TapOutput{DelaySamples: float64(t.I("d")) / 4, Gain: float32(t.I("g")) / 4, Pan: float32(t.I("p"))})
		}
		l, r := float32(99), float32(77)
		s.raw.(*delay.MultiTapDelay).ProcessMultiTap(in(o.I("x")), ts, &l, &r)
		return []int{exact(math.Round(float64(l) * su)), exact(math.Round(float64(r) * su))}
	default:
		panic("harness: unknown op")
	}
	return none
}

func genDelay(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"line", "comb", "allpass", "taps", "mod"}[i%5]
	max := 1 + r.Intn(9)
	rate := []int{1, 2, 4}[r.Intn(3)]
	size := max + 1
	if k == "mod" && size < 10*rate {
		max = 10*rate + r.Intn(5)
		size = max + 1
	}
	ops := []vh.Op{{"op": "new", "k": k, "max": max, "rate": rate, "n": r.Intn(4)}}
	fracs := 0 // halvings since the last reset, so that results stay exact
	intFb := false
	val := func() int { return (r.Intn(17) - 8) * su }
	dl := func() int {
		d := 4 * (1 + r.Intn(size))
		if r.Intn(3) == 0 && fracs < 3 && d < 4*size && (k == "line" || k == "taps" || k == "mod") {
			return d + []int{2, 1, 3}[r.Intn(3)]
		}
		return d
	}
	vals := func(n int) []int {
		x := []int{}
		for j := 0; j < n; j++ {
			x = append(x, val())
		}
		return x
	}
	budget := func(n int) bool { // samples through a machine with feedback
		if k != "comb" && k != "allpass" {
			return true
		}
		if intFb {
			n = (n + 1) / 2
		}
		if fracs+n > 6 {
			ops = append(ops, vh.Op{"op": "reset"})
			fracs = 0
		}
		fracs += n
		return true
	}
	nt := 40
	for len(ops) < nt {
		switch r.Intn(9) {
		case 0, 1:
			if k == "mod" {
				break
			}
			budget(1)
			ops = append(ops, vh.Op{"op": "process", "x": val(), "d": dl()})
		case 2:
			if k == "mod" {
				break
			}
			n := r.Intn(5)
			budget(n)
			ops = append(ops, vh.Op{"op": "block", "xs": vals(n), "d": dl()})
		case 3:
			switch k {
			case "line":
				ops = append(ops, vh.Op{"op": "mix", "xs": vals(r.Intn(12)), "d": dl(), "g": r.Intn(5)})
			case "mod":
				ops = append(ops, vh.Op{"op": "mod", "xs": vals(r.Intn(12))})
			case "taps":
				ts := []any{}
				for j := 0; j < r.Intn(5); j++ {
					ts = append(ts, map[string]any{"d": dl(), "g": r.Intn(9) - 4, "p": []int{-1, 1}[r.Intn(2)]})
				}
				ops = append(ops, vh.Op{"op": "taps", "x": val(), "ts": ts})
			case "comb":
				ops = append(ops, vh.Op{"op": "damp", "g": []int{0, 2, 4, 0}[r.Intn(4)]})
			}
		case 4:
			ops = append(ops, vh.Op{"op": "write", "x": val()})
		case 5:
			ops = append(ops, vh.Op{"op": "read", "d": dl()})
		case 6:
			if k == "comb" || k == "allpass" {
				ops = append(ops, vh.Op{"op": "fb", "g": []int{0, 4, -4, 2, -2}[r.Intn(5)]})
			}
			if k == "mod" {
				ops = append(ops, vh.Op{"op": "center", "d": dl()})
			}
		case 7:
			if r.Intn(3) == 0 {
				ops = append(ops, vh.Op{"op": "reset"})
				fracs = 0
			}
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "delay", New: func() vh.Subject { return &delaySubj{} }, Gen: genDelay, Quick: 800, Thorough: 8000})
}
