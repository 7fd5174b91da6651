package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

const fine = 1 << 20

type smoothSubj struct {
	bare map[int]*param.Smoother
	par  map[int]*param.Parameter
	kind map[int]string
	tgt  map[int]int
	ps   *param.ParameterSmoother
}

func newSmooth() vh.Subject {
	return &smoothSubj{map[int]*param.Smoother{}, map[int]*param.Parameter{}, map[int]string{}, map[int]int{}, param.NewParameterSmoother()}
}

func rateOf(kind string, r int) float64 {
	if kind == "exp" {
		return float64(r) / 64
	}
	return float64(r)
}

var kinds = map[string]param.SmoothingType{"lin": param.LinearSmoothing, "exp": param.ExponentialSmoothing, "log": param.LogarithmicSmoothing}

func (s *smoothSubj) units(i int, x float64) int {
	if s.kind[i] == "log" {
		return int(x * fine)
	}
	return exact(x * fine)
}

func (s *smoothSubj) Do(o vh.Op) any {
	none := []int{}
	if o.S("op") == "all" {
		s.ps.UpdateAll()
		return none
	}
	i := o.I("i")
	b := s.bare[i]
	switch o.S("op") {
	case "new":
		k := o.S("kind")
		s.kind[i] = k
		if o.B("bare") {
			s.bare[i] = param.NewSmoother(kinds[k], rateOf(k, o.I("rate")))
			return none
		}
		lo, kk := float64(o.I("lo")), float64(o.I("k"))
		p := param.New(uint32(i), "p").Range(lo, lo+64*kk).Build()
		p.SetValue(float64(o.I("v")) / 64)
		s.par[i] = p
		s.ps.Add(uint32(i), p, kinds[k], rateOf(k, o.I("rate")))
	case "target":
		b.SetTarget(float64(o.I("x")) / fine)
		s.tgt[i] = o.I("x")
	case "reset":
		b.Reset(float64(o.I("x")) / fine)
		s.tgt[i] = o.I("x")
	case "thr":
		b.SetThreshold(float64(o.I("x")) / fine)
	case "next":
		y := s.units(i, b.Next())
		act := 0
		if b.IsSmoothing() && !(s.kind[i] == "log" && y == s.tgt[i]) {
			act = 1
		}
		if s.kind[i] == "log" {
			o["y"] = y
		}
		return []int{y, act}
	case "process":
		buf := make([]float32, o.I("n"))
		for j := range buf {
			buf[j] = float32(j)
		}
		r := []int{}
		b.Process(buf, func(v float64, x float32) float32 {
			r = append(r, s.units(i, v))
			return x + 1
		})
		for j := range buf {
			if buf[j] != float32(j)+1 {
				return []int{-777777}
			}
		}
		o["ys"] = r
		return r
	case "rate":
		r := rateOf(s.kind[i], o.I("r"))
		if b != nil {
			b.SetRate(r)
		} else if sp, ok := s.ps.Get(uint32(i)); ok {
			sp.SetSmoothingRate(r)
		}
	case "time": // the rate as a time of us microseconds
		if sp, ok := s.ps.Get(uint32(i)); ok {
			sp.UpdateSampleRate(float64(o.I("sr")), float64(o.I("us"))/1000)
		}
	case "fall": // an exponential approach for n samples, timed: what is left of the way, in 2^-20
		sp := param.NewSmoothedParameter(param.New(9, "p").Range(0, 64).Build(), param.ExponentialSmoothing, 0.5)
		sp.UpdateSampleRate(float64(o.I("sr")), float64(o.I("us"))/1000)
		sp.SetValue(1)
		y := 0.0
		for n := 0; n < o.I("n"); n++ {
			y = sp.GetSmoothedValue()
		}
		o["y"] = int((64 - y) / 64 * fine)
	case "setv":
		s.ps.SetValue(uint32(i), float64(o.I("x"))/64)
	case "setp":
		if sp, ok := s.ps.Get(uint32(i)); ok {
			sp.SetPlainValue(float64(o.I("p")))
		}
	case "get":
		y := s.units(i, s.ps.GetSmoothed(uint32(i)))
		if s.kind[i] == "log" {
			o["y"] = y
		}
		return []int{y}
	case "enable":
		s.ps.SetSmoothing(uint32(i), o.B("b"))
	case "value":
		return []int{t64(s.par[i].GetValue())}
	default:
		panic("harness: unknown op")
	}
	return none
}

func genSmooth(r *rand.Rand, i int, tier string) []vh.Op {
	if i%2 == 0 {
		return genBare(r)
	}
	return genSmoothed(r)
}

func genBare(r *rand.Rand) []vh.Op {
	kind := []string{"lin", "lin", "exp", "log"}[r.Intn(4)]
	rates := map[string][]int{"lin": {0, 1, 2, 4, 8, 16}, "exp": {0, 32, 32, 32}, "log": {0, 1, 3, 10, 25}}[kind]
	rate := rates[r.Intn(len(rates))]
	ops := []vh.Op{{"op": "new", "i": 1, "kind": kind, "rate": rate, "lo": 0, "k": 0, "v": 0, "bare": true}}
	add := func(o vh.Op) { o["i"] = 1; ops = append(ops, o) }
	next := func(n int) {
		for ; n > 0; n-- {
			if r.Intn(6) == 0 {
				m := r.Intn(4)
				if m > n {
					m = n
				}
				add(vh.Op{"op": "process", "n": m, "ys": []int{}})
				n -= m
				if n <= 0 {
					break
				}
			}
			add(vh.Op{"op": "next", "y": 0})
		}
	}
	val := func() int {
		if kind == "log" {
			return r.Intn(60) * fine
		}
		return (r.Intn(128) - 40) * fine
	}
	for len(ops) < 60 {
		add(vh.Op{"op": "reset", "x": val()})
		if r.Intn(4) == 0 {
			rate = rates[r.Intn(len(rates))]
			add(vh.Op{"op": "rate", "r": rate})
		}
		if r.Intn(4) == 0 && kind != "log" {
			add(vh.Op{"op": "thr", "x": []int{105, fine, fine / 4}[r.Intn(3)]})
		}
		t := val()
		add(vh.Op{"op": "target", "x": t})
		switch r.Intn(3) {
		case 0: // one flight to the end and beyond
			next(rate + 2 + r.Intn(3))
			if kind == "exp" {
				next(30)
			}
		case 1: // new targets on the way (also going back, also the present value)
			m := 1 + r.Intn(3)
			next(m)
			for j := 0; j < 2; j++ {
				switch r.Intn(3) {
				case 0:
					add(vh.Op{"op": "target", "x": val()})
				case 1:
					add(vh.Op{"op": "target", "x": t + fine/4*r.Intn(3)})
				case 2:
					add(vh.Op{"op": "target", "x": t})
				}
				k := 1 + r.Intn(4)
				next(k)
			}
			if kind != "exp" {
				next(rate + 1)
			}
		case 2: // rate change on the way
			next(1)
			rate = rates[r.Intn(len(rates))]
			add(vh.Op{"op": "rate", "r": rate})
			next(3)
		}
	}
	return ops
}

func genSmoothed(r *rand.Rand) []vh.Op {
	ops := []vh.Op{}
	if r.Intn(3) == 0 {
		n := 2 * (5 + r.Intn(200))
		sr := []int{8000, 48000, 250}[r.Intn(3)]
		for sr*((n*1000000)/sr) != n*1000000 {
			n += 2
		}
		ops = append(ops, vh.Op{"op": "fall", "i": 9, "sr": sr, "us": n * 1000000 / sr, "n": []int{n, n / 2}[r.Intn(2)]})
	}
	log := r.Intn(4) == 0
	kindOf := map[int]string{}
	n := 1 + r.Intn(3)
	kk := make([]int, n+1)
	lo := make([]int, n+1)
	for i := 1; i <= n; i++ {
		kind, rate := "lin", []int{0, 1, 2, 4, 8}[r.Intn(5)]
		kk[i] = 1 + r.Intn(2)
		lo[i] = r.Intn(100) - 50
		if log && i == 1 {
			kind, rate, lo[i] = "log", []int{1, 3, 10}[r.Intn(3)], 0
		} else if r.Intn(3) == 0 {
			kind, rate = "exp", []int{0, 32}[r.Intn(2)]
		}
		ops = append(ops, vh.Op{"op": "new", "i": i, "kind": kind, "rate": rate, "lo": lo[i], "k": kk[i], "v": r.Intn(65), "bare": false})
		kindOf[i] = kind
	}
	adv := 0 // advances since all were settled
	for len(ops) < 50 {
		i := 1 + r.Intn(n)
		if r.Intn(20) == 0 {
			i = 77
		}
		if r.Intn(12) == 0 && i != 77 {
			m := []int{1, 2, 4, 8, 0}[r.Intn(5)]
			if kindOf[i] == "log" {
				m = []int{1, 3, 10}[r.Intn(3)]
			}
			if kindOf[i] == "exp" {
				ops = append(ops, vh.Op{"op": "rate", "i": i, "r": []int{0, 32}[r.Intn(2)]})
			} else if r.Intn(2) == 0 {
				ops = append(ops, vh.Op{"op": "rate", "i": i, "r": m})
			} else {
				sr := []int{8000, 1000, 4000}[r.Intn(3)]
				ops = append(ops, vh.Op{"op": "time", "i": i, "sr": sr, "us": m * 1000000 / sr})
			}
		}
		switch r.Intn(8) {
		case 0, 1:
			ops = append(ops, vh.Op{"op": "setv", "i": i, "x": r.Intn(75) - 5})
		case 2:
			if i != 77 {
				ops = append(ops, vh.Op{"op": "setp", "i": i, "p": lo[i] + kk[i]*(r.Intn(80)-8)})
			}
		case 3, 4, 5:
			if adv < 6 {
				adv++
				ops = append(ops, vh.Op{"op": "get", "i": i, "y": 0})
			} else {
				for j := 1; j <= n; j++ {
					ops = append(ops, vh.Op{"op": "enable", "i": j, "b": false}, vh.Op{"op": "get", "i": j, "y": 0})
					if r.Intn(2) == 0 {
						ops = append(ops, vh.Op{"op": "setv", "i": j, "x": r.Intn(65)})
					}
					ops = append(ops, vh.Op{"op": "enable", "i": j, "b": true})
				}
				adv = 0
			}
		case 6:
			if !log && adv < 6 {
				adv++
				ops = append(ops, vh.Op{"op": "all"})
			} else if i != 77 {
				ops = append(ops, vh.Op{"op": "value", "i": i})
			}
		case 7:
			ops = append(ops, vh.Op{"op": "enable", "i": i, "b": r.Intn(3) > 0})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "smooth", New: newSmooth, Gen: genSmooth, Quick: 1800, Thorough: 6000})
}
