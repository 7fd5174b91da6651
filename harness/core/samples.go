package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"verif/vh"
)

type sampSubj struct{ m []float32 }

const lsb = 4096

func u4096(x float64) int { return exact(math.Round(x * lsb)) }

// win returns the slice a window names, within the given memory.
func win(m []float32, o vh.Op) []float32 {
	a, n := o.I("a"), o.I("n")
	return m[a-1 : a-1+n]
}

func sameF(a, b []float32) bool {
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// all runs every equivalent entry point on its own copy of the memory and
// keeps the result of the first; a disagreement shows as a result.
func (s *sampSubj) all(fs ...func(m []float32)) any {
	var first []float32
	for i, f := range fs {
		c := append([]float32(nil), s.m...)
		f(c)
		if i == 0 {
			first = c
		} else if !sameF(first, c) {
			return []any{"entry points disagree", i}
		}
	}
	copy(s.m, first)
	return []int{}
}

func (s *sampSubj) Do(o vh.Op) any {
	g := func(k string) float32 { return float32(o.I(k)) / 16 }
	w := func(m []float32, k string) []float32 { return win(m, o.M(k)) }
	switch o.S("op") {
	case "mem":
		s.m = nil
		for _, x := range o.IL("v") {
			s.m = append(s.m, float32(x)/lsb)
		}
		return []int{}
	case "dump":
		r := []int{}
		for _, x := range s.m {
			r = append(r, exact(float64(x)*lsb))
		}
		return r
	case "clear":
		return s.all(func(m []float32) { dsp.Clear(w(m, "d")) })
	case "copy":
		return s.all(func(m []float32) { dsp.Copy(w(m, "d"), w(m, "s")) })
	case "add":
		return s.all(func(m []float32) { dsp.Add(w(m, "d"), w(m, "s")) },
			func(m []float32) { dsp.AddScaled(w(m, "d"), w(m, "s"), 1) })
	case "addscaled":
		return s.all(func(m []float32) { dsp.AddScaled(w(m, "d"), w(m, "s"), g("g")) })
	case "scale":
		fs := []func(m []float32){
			func(m []float32) { dsp.Scale(w(m, "d"), g("g")) },
			func(m []float32) { gain.ApplyBuffer(w(m, "d"), g("g")) },
			func(m []float32) {
				d := w(m, "d")
				for i := range d {
					d[i] = gain.Apply(d[i], g("g"))
				}
			}}
		if x := o.I("g"); x == 0 || x == 16 {
			db := float32(0)
			if x == 0 {
				db = gain.MinDB
			}
			fs = append(fs, func(m []float32) { gain.ApplyDbBuffer(w(m, "d"), db) },
				func(m []float32) {
					d := w(m, "d")
					for i := range d {
						d[i] = gain.ApplyDb(d[i], db)
					}
				})
		}
		return s.all(fs...)
	case "scaleto":
		return s.all(func(m []float32) { gain.ApplyBufferTo(w(m, "s"), g("g"), w(m, "d")) })
	case "mix":
		each := func(f func(a, b, g float32) float32) func(m []float32) {
			return func(m []float32) {
				a, b, d := w(m, "s"), w(m, "s2"), w(m, "d")
				for i := 0; i < len(a) && i < len(b) && i < len(d); i++ {
					d[i] = f(a[i], b[i], g("g"))
				}
			}
		}
		return s.all(func(m []float32) { dsp.Mix(w(m, "d"), w(m, "s"), w(m, "s2"), g("g")) },
			func(m []float32) { mix.DryWetBufferTo(w(m, "s"), w(m, "s2"), g("g"), w(m, "d")) },
			func(m []float32) { mix.CrossfadeBuffer(w(m, "s"), w(m, "s2"), g("g"), false, w(m, "d")) },
			each(mix.DryWet), each(mix.CrossfadeLinear))
	case "drywet":
		return s.all(func(m []float32) { mix.DryWetBuffer(w(m, "d"), w(m, "s2"), g("g")) })
	case "clip":
		lim := float32(o.I("lim")) / lsb
		return s.all(func(m []float32) { dsp.Clip(w(m, "d"), lim) },
			func(m []float32) { gain.HardClipBuffer(w(m, "d"), lim) },
			func(m []float32) {
				d := w(m, "d")
				for i := range d {
					d[i] = gain.HardClip(d[i], lim)
				}
			})
	case "peak":
		return []int{exact(float64(dsp.Peak(w(s.m, "d"))) * lsb)}
	case "rms":
		o["y"] = exact(math.Floor(float64(dsp.RMS(w(s.m, "d"))) * 256))
		return []any{o["y"]}
	case "fade":
		fs := []func(m []float32){func(m []float32) { gain.Fade(w(m, "d"), g("g"), g("h")) }}
		db := map[int]float32{0: gain.MinDB, 16: 0}
		x, ok := db[o.I("g")]
		y, ok2 := db[o.I("h")]
		if ok && ok2 {
			fs = append(fs, func(m []float32) { gain.FadeDb(w(m, "d"), x, y) })
		}
		return s.all(fs...)
	case "sum":
		gs := []float32{}
		for _, x := range o.IL("gs") {
			gs = append(gs, float32(x)/16)
		}
		ss := func(m []float32) (r [][]float32) {
			for _, x := range o.L("ss") {
				r = append(r, win(m, vh.ToOp(x)))
			}
			return
		}
		fs := []func(m []float32){func(m []float32) { mix.SumWeighted(ss(m), gs, w(m, "d")) }}
		if len(gs) == 0 {
			fs = append(fs, func(m []float32) { mix.Sum(ss(m), w(m, "d")) })
		}
		return s.all(fs...)
	case "softclip":
		lim := float32(o.I("lim")) / lsb
		var bad any
		if o.S("k") == "dsp" {
			bad = s.all(func(m []float32) { dsp.SoftClip(w(m, "d"), lim) })
		} else {
			bad = s.all(func(m []float32) { gain.SoftClipBuffer(w(m, "d"), lim) },
				func(m []float32) {
					d := w(m, "d")
					for i := range d {
						d[i] = gain.SoftClip(d[i], lim)
					}
				})
		}
		if b, ok := bad.([]any); ok {
			return b
		}
		y := []int{}
		d := w(s.m, "d")
		for i, x := range d {
			v := u4096(float64(x))
			y = append(y, v)
			d[i] = float32(v) / lsb
		}
		o["y"] = y
		return []int{}
	case "pan":
		return s.all(func(m []float32) { pan.Process(w(m, "s"), g("p"), pan.Linear, w(m, "d"), w(m, "d2")) })
	case "panstereo":
		return s.all(func(m []float32) {
			pan.ProcessStereo(w(m, "s"), w(m, "s2"), g("p"), pan.Linear, w(m, "d"), w(m, "d2"))
		})
	case "balance":
		return s.all(func(m []float32) { pan.Balance(w(m, "s"), w(m, "s2"), g("p"), w(m, "d"), w(m, "d2")) })
	case "width":
		return s.all(func(m []float32) { pan.Width(w(m, "s"), w(m, "s2"), g("g"), w(m, "d"), w(m, "d2")) })
	case "pangains":
		law := pan.Law(o.I("law"))
		l, r := pan.MonoToStereo(g("p"), law)
		l2, r2 := pan.MonoToStereo(-g("p"), law)
		a, b := []float32{9, 9}, []float32{9}
		pan.Process([]float32{1, 1, 1}, g("p"), law, a, b)
		y := []int{u4096(float64(l)), u4096(float64(r)), u4096(float64(l2)), u4096(float64(r2))}
		o["y"] = y
		if a[0] != l || b[0] != r || a[1] != 9 {
			return []any{"panning a buffer differs from the law's gains", y}
		}
		return y
	case "equalpower":
		p := g("g")
		l := mix.CrossfadeCosine(1, 0, p)
		r := mix.CrossfadeCosine(0, 1, p)
		a, b := []float32{9}, []float32{9, 9}
		mix.CrossfadeBuffer([]float32{1, 1}, []float32{0}, p, true, a)
		mix.CrossfadeBuffer([]float32{0, 0}, []float32{1}, p, true, b)
		c := []float32{9, 9}
		mix.Blend([]float32{1, 0}, []float32{0, 1}, 2*p-1, c)
		y := []int{u4096(float64(l)), u4096(float64(r))}
		o["y"] = y
		if a[0] != l || b[0] != r || b[1] != 9 || c[0] != l || c[1] != r {
			return []any{"entry points disagree", y}
		}
		return y
	case "db":
		x, x2 := float64(o.I("x"))/1000, float64(o.I("x2"))/1000
		lin, lin2 := gain.DbToLinear(x), gain.DbToLinear(x2)
		cmp := 0
		if lin < lin2 {
			cmp = -1
		} else if lin > lin2 {
			cmp = 1
		}
		rt := exact(math.Round(gain.LinearToDb(lin) * 1000))
		l4 := -1
		if lin < 100 {
			l4 = u4096(lin)
		}
		y := []any{rt, cmp, lin == 0, l4}
		o["y"] = y
		lin32 := gain.DbToLinear32(float32(x))
		rt32 := math.Round(float64(gain.LinearToDb32(lin32)) * 1000)
		if math.Abs(rt32-float64(rt)) > 20 || math.Abs(float64(lin32)-lin) > 1e-5*lin || gain.LinearToDb(-1) != gain.MinDB || gain.LinearToDb32(-1) != gain.MinDB {
			return []any{"the 32-bit functions disagree", y}
		}
		return y
	}
	panic("harness: unknown op")
}

func genSamples(r *rand.Rand, i int, tier string) []vh.Op {
	const N = 24
	var ops []vh.Op
	wnd := func(lo, hi int) map[string]any {
		a := lo + r.Intn(hi-lo+1)
		n := r.Intn(hi - a + 2)
		if a+n-1 > hi {
			n = hi - a + 1
		}
		return map[string]any{"a": a, "n": n}
	}
	gs := []int{0, 16, -16, 8, -8, 32, 4, 24}
	G := func() int { return gs[r.Intn(len(gs))] }
	for len(ops) < 30 {
		v := []int{}
		for k := 0; k < N; k++ {
			x := (r.Intn(65) - 32) * 256
			if r.Intn(6) == 0 {
				x = 0
			}
			v = append(v, x)
		}
		ops = append(ops, vh.Op{"op": "mem", "v": v})
		fresh := true
		for k := 0; k < 3; k++ {
			a, b, c, d := wnd(1, 6), wnd(7, 12), wnd(13, 18), wnd(19, 24)
			if r.Intn(3) == 0 { // in place
				c = map[string]any{"a": a["a"], "n": r.Intn(7 - a["a"].(int) + 1)}
			}
			if r.Intn(3) == 0 {
				d = map[string]any{"a": b["a"], "n": r.Intn(13 - b["a"].(int) + 1)}
			}
			p := []int{-16, -8, 0, 8, 16, 4, -12}[r.Intn(7)]
			switch r.Intn(20) {
			case 0:
				ops = append(ops, vh.Op{"op": "clear", "d": a})
			case 1:
				ops = append(ops, vh.Op{"op": "copy", "d": c, "s": a})
			case 2:
				ops = append(ops, vh.Op{"op": "add", "d": c, "s": a})
			case 3:
				ops = append(ops, vh.Op{"op": "addscaled", "d": c, "s": a, "g": G()})
			case 4:
				ops = append(ops, vh.Op{"op": "scale", "d": wnd(1, N), "g": G()})
			case 5:
				ops = append(ops, vh.Op{"op": "scaleto", "s": a, "d": c, "g": G()})
			case 6:
				ops = append(ops, vh.Op{"op": "mix", "s": a, "s2": b, "d": []any{c, d, a, b}[r.Intn(4)], "g": []int{0, 16, 8, 4, 12}[r.Intn(5)]})
			case 7:
				ops = append(ops, vh.Op{"op": "drywet", "d": []any{c, d}[r.Intn(2)], "s2": []any{b, a}[r.Intn(2)], "g": []int{0, 16, 8, 4, 12}[r.Intn(5)]})
				o := ops[len(ops)-1]
				x, y := o.M("d"), o.M("s2")
				if x.I("a") != y.I("a") && !(x.I("a")+x.I("n") <= y.I("a") || y.I("a")+y.I("n") <= x.I("a")) {
					ops = ops[:len(ops)-1]
				}
			case 8:
				ops = append(ops, vh.Op{"op": "clip", "d": wnd(1, N), "lim": r.Intn(33) * 256})
			case 9:
				ops = append(ops, vh.Op{"op": "peak", "d": wnd(1, N)})
			case 10:
				if fresh {
					ops = append(ops, vh.Op{"op": "rms", "d": wnd(1, N)})
				}
			case 11:
				if fresh {
					n := []int{0, 1, 2, 3, 5, 9, 17}[r.Intn(7)]
					h, g := G(), G()
					if n > 3 {
						h, g = h/8*8, g/8*8
					}
					if n >= 9 {
						h, g = h/16*16, g/16*16
					}
					ops = append(ops, vh.Op{"op": "fade", "d": map[string]any{"a": 1 + r.Intn(N-n+1), "n": n}, "g": g, "h": h})
				}
			case 12:
				ss := []any{}
				for j := 0; j < r.Intn(4); j++ {
					ss = append(ss, wnd(1, 12))
				}
				w := []int{}
				for j := 0; j < r.Intn(4); j++ {
					w = append(w, G())
				}
				ops = append(ops, vh.Op{"op": "sum", "ss": ss, "gs": w, "d": wnd(13, N)})
			case 13:
				ops = append(ops, vh.Op{"op": "softclip", "k": []string{"dsp", "gain"}[r.Intn(2)], "d": wnd(1, N), "lim": r.Intn(17) * 256}, vh.Op{"op": "dump"})
				k = 3
			case 14:
				ops = append(ops, vh.Op{"op": "pan", "s": a, "p": p, "d": wnd(13, 18), "d2": wnd(19, 24)})
			case 15:
				ops = append(ops, vh.Op{"op": "panstereo", "s": a, "s2": b, "p": p, "d": c, "d2": d})
			case 16:
				ops = append(ops, vh.Op{"op": "balance", "s": a, "s2": b, "p": p, "d": c, "d2": d})
			case 17:
				ops = append(ops, vh.Op{"op": "width", "s": a, "s2": b, "g": []int{0, 8, 16, 32, 24}[r.Intn(5)], "d": c, "d2": d})
			case 18:
				ops = append(ops, vh.Op{"op": "pangains", "law": r.Intn(3), "p": r.Intn(33) - 16}, vh.Op{"op": "equalpower", "g": r.Intn(17)})
			default:
				x := func() int { return []int{0, -6021, 20000, -200000, -250000, -199999, -r.Intn(200000), r.Intn(100000), -r.Intn(6000)}[r.Intn(9)] }
				ops = append(ops, vh.Op{"op": "db", "x": x(), "x2": x()})
			}
			if len(ops) > 0 {
				switch ops[len(ops)-1].S("op") {
				case "peak", "rms", "db", "pangains", "equalpower", "mem":
				default:
					fresh = false
				}
			}
			ops = append(ops, vh.Op{"op": "dump"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "samples", New: func() vh.Subject { return &sampSubj{} }, Gen: genSamples, Quick: 1200, Thorough: 8000})
}
