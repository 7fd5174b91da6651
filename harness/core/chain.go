package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/dsp"
	"verif/vh"
)

// chainProc is one of the small integer machines of the specification.
type chainProc struct {
	k    string
	a, b int
	s    [2]int
}

func mod97(x int) int { return ((x % 97) + 97) % 97 }

func (p *chainProc) run(c int, buf []float32) {
	for i, v := range buf {
		x := exact(float64(v))
		switch p.k {
		case "aff", "fun", "saff":
			x = mod97(p.a*x + p.b)
		case "acc", "sacc":
			p.s[c] = mod97(p.s[c] + x)
			x = p.s[c]
		case "del":
			x, p.s[c] = p.s[c], mod97(x)
		}
		buf[i] = float32(x)
	}
}
func (p *chainProc) Process(buf []float32) { p.run(0, buf) }
func (p *chainProc) ProcessStereo(l, r []float32) {
	if p.k == "swp" {
		for i := range l {
			l[i], r[i] = r[i], l[i]
		}
		return
	}
	p.run(0, l)
	p.run(1, r)
}
func (p *chainProc) Reset() { p.s = [2]int{} }

type chainSubj struct {
	nodes []any
	b     *dsp.Builder
	sb    *dsp.StereoBuilder
}

// guarded lays a buffer between sentinels, so that writes outside it show.
func guarded(l []int) (buf, all []float32) {
	all = make([]float32, len(l)+4)
	for i := range all {
		all[i] = -7777
	}
	buf = all[2 : 2+len(l)]
	for i, x := range l {
		buf[i] = float32(x)
	}
	return buf, all
}

func unguard(buf, all []float32) []int {
	r := make([]int, len(buf))
	for i, x := range buf {
		r[i] = exact(float64(x))
	}
	n := len(all)
	for _, i := range []int{0, 1, n - 2, n - 1} {
		if all[i] != -7777 {
			r = append(r, -999999)
		}
	}
	return r
}

func (s *chainSubj) Do(o vh.Op) any {
	none := []int{}
	switch o.S("op") {
	case "new":
		switch k := o.S("k"); k {
		case "chain":
			s.nodes = append(s.nodes, dsp.NewChain("c"))
		case "par":
			s.nodes = append(s.nodes, dsp.NewParallelChain("p"))
		case "schain":
			s.nodes = append(s.nodes, dsp.NewStereoChain("s"))
		case "fun":
			p := &chainProc{k: k, a: o.I("a"), b: o.I("b")}
			s.nodes = append(s.nodes, dsp.ProcessorFunc(p.Process))
		default:
			s.nodes = append(s.nodes, &chainProc{k: k, a: o.I("a"), b: o.I("b")})
		}
	case "add":
		n := s.nodes[o.I("n")-1]
		switch c := s.nodes[o.I("c")-1].(type) {
		case *dsp.Chain:
			c.Add(n.(dsp.Processor))
		case *dsp.ParallelChain:
			c.Add(n.(dsp.Processor), float32(o.I("g")))
		case *dsp.StereoChain:
			c.Add(n.(dsp.StereoProcessor))
		}
	case "addfunc":
		p := &chainProc{k: "fun", a: o.I("a"), b: o.I("b")}
		s.nodes[o.I("c")-1].(*dsp.Chain).AddFunc("f", p.Process)
		s.nodes = append(s.nodes, dsp.ProcessorFunc(p.Process))
	case "process":
		buf, all := guarded(o.IL("buf"))
		s.nodes[o.I("n")-1].(dsp.Processor).Process(buf)
		return unguard(buf, all)
	case "process2":
		l, la := guarded(o.IL("l"))
		r, ra := guarded(o.IL("r"))
		s.nodes[o.I("n")-1].(dsp.StereoProcessor).ProcessStereo(l, r)
		return []any{unguard(l, la), unguard(r, ra)}
	case "reset":
		s.nodes[o.I("n")-1].(interface{ Reset() }).Reset()
	case "bypass":
		s.nodes[o.I("n")-1].(interface{ SetBypass(bool) }).SetBypass(o.B("b"))
	case "count":
		c := s.nodes[o.I("n")-1].(*dsp.Chain)
		return []any{c.Count(), c.IsEmpty()}
	case "bnew":
		s.b, s.sb = nil, nil
		if o.B("st") {
			s.sb = dsp.NewStereoBuilder("b")
		} else {
			s.b = dsp.NewBuilder("b")
		}
	case "bwith":
		n := o.I("n")
		switch {
		case s.sb != nil && n == 0:
			s.sb.WithProcessor(nil)
		case s.sb != nil:
			s.sb.WithProcessor(s.nodes[n-1].(dsp.StereoProcessor))
		case n == 0:
			s.b.WithProcessor(nil)
		default:
			s.b.WithProcessor(s.nodes[n-1].(dsp.Processor))
		}
	case "bfunc":
		if o.B("nil") {
			s.b.WithFunc("f", nil)
		} else {
			p := &chainProc{k: "fun", a: o.I("a"), b: o.I("b")}
			s.b.WithFunc("f", p.Process)
			s.nodes = append(s.nodes, dsp.ProcessorFunc(p.Process))
		}
	case "build":
		var c any
		var err error
		isNil := false
		if s.sb != nil {
			var x *dsp.StereoChain
			x, err = s.sb.Build()
			c, isNil = x, x == nil
		} else {
			var x *dsp.Chain
			x, err = s.b.Build()
			c, isNil = x, x == nil
		}
		if (err == nil) == isNil {
			return []string{"error and chain disagree"}
		}
		if err != nil {
			return []bool{false}
		}
		s.nodes = append(s.nodes, c)
		return []bool{true}
	default:
		panic("harness: unknown op")
	}
	return none
}

func genChain(r *rand.Rand, i int, tier string) []vh.Op {
	st := i%3 == 0
	kinds := []string{"aff", "acc", "del", "fun", "chain", "par", "chain", "par"}
	if st {
		kinds = []string{"saff", "sacc", "swp", "schain", "schain"}
	}
	type nd struct {
		k     string
		depth int
		own   int // groups hold nodes older than this
		kids  int
	}
	var nodes []nd
	var ops []vh.Op
	building, err, pend, bdepth := false, false, 0, 0
	fun := func() (int, int) { return r.Intn(7) - 3, r.Intn(20) }
	groups := func(all bool) (g []int) {
		for i, n := range nodes {
			if n.k == "chain" || n.k == "schain" || n.k == "par" {
				g = append(g, i)
			}
		}
		return
	}
	for len(ops) < 45 {
		switch x := r.Intn(20); {
		case len(nodes) < 3 || (x < 3 && len(nodes) < 14):
			k := kinds[r.Intn(len(kinds))]
			a, b := fun()
			ops = append(ops, vh.Op{"op": "new", "k": k, "a": a, "b": b})
			nodes = append(nodes, nd{k: k, own: len(nodes)})
		case x < 9:
			g := groups(true)
			if len(g) == 0 {
				continue
			}
			c := g[r.Intn(len(g))]
			if c == 0 || nodes[c].kids >= 4 {
				continue
			}
			n := r.Intn(c)
			d := nodes[n].depth + 1
			if d > 3 {
				continue
			}
			// a group that is already a child must not grow deeper than its parents allow
			if nodes[c].depth < d {
				nodes[c].depth = d
			}
			nodes[c].kids++
			ops = append(ops, vh.Op{"op": "add", "c": c + 1, "n": n + 1, "g": r.Intn(5) - 2})
		case x < 15:
			n := r.Intn(len(nodes))
			mk := func(m int) []int {
				b := []int{}
				for j := 0; j < m; j++ {
					b = append(b, r.Intn(97))
				}
				return b
			}
			m := r.Intn(5)
			if r.Intn(12) == 0 {
				m = 60 + r.Intn(20)
			}
			if st {
				ops = append(ops, vh.Op{"op": "process2", "n": n + 1, "l": mk(m), "r": mk(m)})
			} else {
				ops = append(ops, vh.Op{"op": "process", "n": n + 1, "buf": mk(m)})
			}
		case x == 15:
			ops = append(ops, vh.Op{"op": "reset", "n": 1 + r.Intn(len(nodes))})
		case x == 16:
			if g := groups(true); len(g) > 0 {
				ops = append(ops, vh.Op{"op": "bypass", "n": 1 + g[r.Intn(len(g))], "b": r.Intn(3) == 0})
			}
		case x == 17 && !st:
			if g := groups(true); len(g) > 0 {
				c := g[r.Intn(len(g))]
				if nodes[c].k != "chain" {
					continue
				}
				if r.Intn(2) == 0 && len(nodes) < 14 && nodes[c].kids < 4 {
					a, b := fun()
					ops = append(ops, vh.Op{"op": "addfunc", "c": c + 1, "a": a, "b": b})
					nodes = append(nodes, nd{k: "fun"})
					nodes[c].kids++
				} else {
					ops = append(ops, vh.Op{"op": "count", "n": c + 1})
				}
			}
		default:
			switch y := r.Intn(6); {
			case !building || len(nodes) >= 18:
				ops = append(ops, vh.Op{"op": "bnew", "st": st})
				building, err, pend, bdepth = true, false, 0, 0
			case y == 0:
				ops = append(ops, vh.Op{"op": "build"})
				building = r.Intn(2) == 0 // the builder may go on
				if !err && pend > 0 {
					k := "chain"
					if st {
						k = "schain"
					}
					nodes = append(nodes, nd{k: k, depth: bdepth + 1, kids: pend})
				}
			case y == 1:
				if r.Intn(3) == 0 {
					ops = append(ops, vh.Op{"op": "bwith", "n": 0})
					err = true
				}
			case y == 2 && !st && len(nodes) < 14:
				a, b := fun()
				nl := r.Intn(6) == 0
				ops = append(ops, vh.Op{"op": "bfunc", "nil": nl, "a": a, "b": b})
				if nl {
					err = true
				} else {
					nodes = append(nodes, nd{k: "fun"})
					pend++
				}
			case pend < 4:
				n := r.Intn(len(nodes))
				if nodes[n].depth > 2 {
					continue
				}
				if nodes[n].depth > bdepth {
					bdepth = nodes[n].depth
				}
				pend++
				ops = append(ops, vh.Op{"op": "bwith", "n": n + 1})
			}
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "chain", New: func() vh.Subject { return &chainSubj{} }, Gen: genChain, Quick: 800, Thorough: 8000})
}
