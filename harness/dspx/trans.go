package main

import (
	"math"
	"math/rand"
	"testing"

	"verif/vh"
)

const sr = 8000.0

// unit is one processor under test; the entry points it lacks are nil.
type unit struct {
	block  func(in, out []float32)
	place  func(b []float32)
	sample func(x float32) float32
	sblock func(l, r, ol, or []float32)
	splace func(l, r []float32)
	ssamp  func(l, r float32) (float32, float32)
	reset  func()
	set    func(k string, v int)
}

// entry describes one kind of processor.
type entry struct {
	name   string
	shape  string // as in Transducer.tla
	params []string
	flush  map[string]bool // settings that restart part of the machine
	dry    string
	anti   bool
	silent bool
	decays bool
	allocs bool // allocation is claimed to be free
	tol    int
	bound  int // in units
	long   bool
	mk     func() *unit
	nv     map[string]int // number of values (default 3)
}

func (e *entry) vals(k string) int {
	if n := e.nv[k]; n > 0 {
		return n
	}
	return 3
}

func (e *entry) rec(stride int) vh.Op {
	tol := e.tol
	if tol == 0 {
		tol = 24
	}
	bound := e.bound
	if bound == 0 {
		bound = 16
	}
	return vh.Op{"name": e.name, "shape": e.shape, "params": e.params, "dry": e.dry, "anti": e.anti, "silent": e.silent,
		"tol": tol, "bound": bound << 20, "stride": stride}
}

var entries []*entry
var byName = map[string]*entry{}

func reg(e *entry) {
	if e.params == nil {
		e.params = []string{}
	}
	entries = append(entries, e)
	byName[e.name] = e
}

// fx: outputs in 1/2^20; what is no number is far out of every bound.
func fx(x float32) int {
	v := math.Round(float64(x) * (1 << 20))
	switch {
	case v != v:
		return 1 << 30
	case v > 1<<29:
		return 1 << 29
	case v < -(1 << 29):
		return -(1 << 29)
	}
	return int(v)
}

func mod(a, b int) int { return ((a % b) + b) % b }

func fdiv(a, b int) int { return int(math.Floor(float64(a) / float64(b))) }

// in1 is In(s, k) of the specification.
func in1(s, k int) int {
	if s == 0 {
		return 0
	}
	h := mod(k*7919+s*10007+k*k*31+((k*k)%1009)*k, 2001) - 1000
	switch s {
	case 2:
		return fdiv(h, 4)
	case 3:
		if (k/16)%2 == 0 {
			return h
		}
		return 0
	case 4:
		if k%50 == 0 {
			return 1000
		}
		return 0
	}
	return h
}

type inst struct {
	u   *unit
	pos int
}
type transSubj struct {
	e      *entry
	stride int
	gain   float32 // inputs are divided by it, outputs multiplied, to look at quiet signals closely
	is     []*inst
}

func (t *transSubj) run(m *inst, via string, ss []int, n int) [][]float32 {
	in := make([][]float32, len(ss))
	out := make([][]float32, len(ss))
	for c, s := range ss {
		in[c] = make([]float32, n)
		out[c] = make([]float32, n)
		for k := 0; k < n; k++ {
			in[c][k] = float32(in1(s, m.pos+k)) / 1024 / t.gain
			out[c][k] = 0.75
		}
	}
	u := m.u
	switch via {
	case "block":
		u.block(in[0], out[0])
	case "inplace":
		if u.place != nil {
			u.place(in[0])
		} else {
			u.block(in[0], in[0])
		}
		out = in
	case "sample":
		for k := 0; k < n; k++ {
			out[0][k] = u.sample(in[0][k])
		}
	case "sblock":
		u.sblock(in[0], in[1], out[0], out[1])
	case "sinplace":
		if u.splace != nil {
			u.splace(in[0], in[1])
		} else {
			u.sblock(in[0], in[1], in[0], in[1])
		}
		out = in
	case "ssample":
		for k := 0; k < n; k++ {
			out[0][k], out[1][k] = u.ssamp(in[0][k], in[1][k])
		}
	default:
		panic("harness: via " + via)
	}
	m.pos += n
	return out
}

func (e *entry) vias(stereo bool) []string {
	u := e.mk()
	v := []string{}
	if !stereo {
		if u.block != nil {
			v = append(v, "block", "inplace")
		} else if u.place != nil {
			v = append(v, "inplace")
		}
		if u.sample != nil {
			v = append(v, "sample")
		}
	} else {
		if u.sblock != nil {
			v = append(v, "sblock", "sinplace")
		} else if u.splace != nil {
			v = append(v, "sinplace")
		}
		if u.ssamp != nil {
			v = append(v, "ssample")
		}
	}
	return v
}

func (t *transSubj) Do(o vh.Op) any {
	none := []int{}
	i := o.I("i") - 1
	switch o.S("op") {
	case "new":
		c := o.M("c")
		t.e = byName[c.S("name")]
		t.stride = c.I("stride")
		t.gain = 1
		if c["quiet"] != nil {
			t.gain = float32(int(1) << c.I("quiet"))
		}
		t.is = append(t.is, &inst{u: t.e.mk()})
	case "set":
		t.is[i].u.set(o.S("k"), o.I("v"))
	case "reset":
		t.is[i].u.reset()
		t.is[i].pos = 0
	case "process":
		m := t.is[i]
		pos := m.pos
		out := t.run(m, o.S("via"), o.IL("ss"), o.I("n"))
		y := [][]int{}
		for c := range out {
			l := []int{}
			for k, x := range out[c] {
				if (pos+k)%t.stride == 0 {
					l = append(l, fx(x*t.gain))
				} else if x != x || x > 1e6 || x < -1e6 {
					l = append(l, 1<<30) // between the observed samples
				}
			}
			y = append(y, l)
		}
		o["y"] = y
	case "tail":
		m := t.is[i]
		ns := make([]int, 1)
		via := o.S("via")
		if via[0] == 's' && via != "sample" {
			ns = make([]int, 2)
		}
		peak, end := float32(0), float32(0)
		for j := 0; j < 40; j++ {
			ss := append([]int{}, ns...)
			for c := range ss {
				ss[c] = 5
			}
			for _, b := range t.run(m, via, ss, 100) {
				for _, x := range b {
					if x != x || float32(math.Abs(float64(x))) > peak {
						peak = float32(math.Abs(float64(x)))
					}
				}
			}
		}
		n := o.I("n")
		for j := 0; j < n; j++ {
			for _, b := range t.run(m, via, ns, 100) {
				if j == n-1 {
					for _, x := range b {
						if x != x || float32(math.Abs(float64(x))) > end {
							end = float32(math.Abs(float64(x)))
						}
					}
				}
			}
		}
		o["y"] = []int{fx(peak), fx(end)}
	case "allocs":
		m := t.is[i]
		via := o.S("via")
		ch := 1
		if via[0] == 's' && via != "sample" {
			ch = 2
		}
		in := [2][]float32{}
		out := [2][]float32{}
		size := o.I("n")
		for c := 0; c < ch; c++ {
			in[c] = make([]float32, size)
			out[c] = make([]float32, size)
			for k := range in[c] {
				in[c][k] = float32(in1(1+c, k)) / 1024
			}
		}
		u := m.u
		f := func() {
			switch via {
			case "block":
				u.block(in[0], out[0])
			case "inplace":
				if u.place != nil {
					u.place(in[0])
				} else {
					u.block(in[0], in[0])
				}
			case "sample":
				for k := range in[0] {
					out[0][k] = u.sample(in[0][k])
				}
			case "sblock":
				u.sblock(in[0], in[1], out[0], out[1])
			case "sinplace":
				if u.splace != nil {
					u.splace(in[0], in[1])
				} else {
					u.sblock(in[0], in[1], in[0], in[1])
				}
			case "ssample":
				for k := range in[0] {
					out[0][k], out[1][k] = u.ssamp(in[0][k], in[1][k])
				}
			}
		}
		best := 1 << 20
		for try := 0; try < 4 && best > 0; try++ {
			if n := int(testing.AllocsPerRun(8, f)); n < best {
				best = n
			}
		}
		o["y"] = []int{best}
	default:
		panic("harness: unknown op")
	}
	return none
}

// genTrans: several machines of one kind go along the same script in
// different ways, some after an unrelated past that a reset ends.
//
// The mode says which of the guarantees a history is about:
//
//	split  fresh machines, histories cut into blocks and entry points at will
//	reset  the same blocks, but some machines have a past
//	level  what channels may depend on, bounds, silence, dry signal, decay
//	alloc  allocations
func genTrans(r *rand.Rand, idx int, mode string) []vh.Op {
	e := entries[idx%len(entries)]
	long := e.long && (idx/len(entries))%2 == 1 && mode != "alloc"
	stride := 1
	scale := 1
	if long {
		stride, scale = 29, 30
	}
	probe := e.mk()
	mono, ster := e.vias(false), e.vias(true)
	streams := func(n int) []int {
		s := []int{}
		for c := 0; c < n; c++ {
			s = append(s, []int{1, 1, 2, 3, 4, 5, 0}[r.Intn(7)])
		}
		if n == 2 && r.Intn(3) == 0 {
			s[1] = s[0]
		}
		return s
	}
	type sett struct {
		k string
		v int
	}
	type seg struct {
		sets []sett
		ss   []int
		n    int
	}
	nch := func() int {
		if len(mono) == 0 {
			return 2
		}
		if len(ster) == 0 {
			return 1
		}
		return 1 + r.Intn(2)
	}
	ch := nch()
	all := r.Intn(4) > 0 && len(e.params) > 0
	script := []seg{}
	segs := 1 + r.Intn(3)
	if len(e.params) == 0 {
		segs = 1
	}
	for j := 0; j < segs; j++ {
		s := seg{ss: streams(ch), n: (1 + r.Intn(40)) * scale}
		if j > 0 && r.Intn(2) == 0 {
			s.ss = script[j-1].ss
		}
		if j == 0 && all {
			for _, k := range e.params {
				s.sets = append(s.sets, sett{k, 1 + r.Intn(e.vals(k))})
			}
		} else if j > 0 {
			for _, k := range r.Perm(len(e.params)) {
				if len(s.sets) < 1+r.Intn(2) {
					s.sets = append(s.sets, sett{e.params[k], 1 + r.Intn(e.vals(e.params[k]))})
				}
			}
		}
		script = append(script, s)
	}
	one := map[int]string{}
	via := func(n int) string {
		if mode == "reset" {
			if one[n] == "" {
				if n == 1 {
					one[n] = mono[r.Intn(len(mono))]
				} else {
					one[n] = ster[r.Intn(len(ster))]
				}
			}
			return one[n]
		}
		if n == 1 {
			return mono[r.Intn(len(mono))]
		}
		return ster[r.Intn(len(ster))]
	}
	nInst := 3
	lists := make([][]vh.Op, nInst)
	for i := 0; i < nInst; i++ {
		add := func(o vh.Op) { o["i"] = i + 1; lists[i] = append(lists[i], o) }
		set := func(s sett) {
			add(vh.Op{"op": "set", "k": s.k, "v": s.v, "restart": e.flush[s.k]})
		}
		proc := func(ss []int, n int) {
			for n > 0 || (mode != "reset" && r.Intn(8) == 0) {
				m := 0
				if n > 0 {
					m = 1 + r.Intn(n)
					if r.Intn(3) == 0 {
						m = n
					}
					if i == 0 || mode == "reset" {
						m = n
					}
					if mode != "reset" && r.Intn(10) == 0 {
						m = 0
					}
				}
				add(vh.Op{"op": "process", "via": via(len(ss)), "ss": ss, "n": m})
				n -= m
			}
		}
		if probe.reset != nil && (mode == "reset" && i > 0 || mode == "level" && r.Intn(3) == 0) {
			if all {
				for _, k := range e.params {
					if r.Intn(2) == 0 {
						set(sett{k, 1 + r.Intn(e.vals(k))})
					}
				}
			}
			pc := nch() // one life keeps its number of channels
			proc(streams(pc), (1+r.Intn(30))*scale)
			if all && r.Intn(2) == 0 {
				k := e.params[r.Intn(len(e.params))]
				set(sett{k, 1 + r.Intn(e.vals(k))})
				proc(streams(pc), (1+r.Intn(30))*scale)
			}
			if all && r.Intn(2) == 0 { // settings may also come before the reset
				for _, s := range script[0].sets {
					set(s)
				}
			}
			add(vh.Op{"op": "reset"})
		}
		swap := mode == "level" && ch == 2 && (e.shape == "dual" || e.shape == "sym" || e.shape == "link") && r.Intn(3) == 0
		for j, s := range script {
			ord := r.Perm(len(s.sets))
			for _, q := range ord {
				set(s.sets[q])
				if r.Intn(6) == 0 && !e.flush[s.sets[q].k] {
					set(s.sets[q])
				}
			}
			ss := s.ss
			if swap {
				ss = []int{ss[1], ss[0]} // the other way round
			}
			proc(ss, s.n)
			if j+1 < len(script) && len(s.sets) > 0 && r.Intn(4) == 0 { // say again what is set
				q := s.sets[r.Intn(len(s.sets))]
				if !e.flush[q.k] {
					set(q)
				}
			}
		}
	}
	ops := []vh.Op{}
	c := e.rec(stride)
	if mode != "level" {
		if q := []int{0, 0, 4, 8}[r.Intn(4)]; e.tol <= 24 { // not where there is noise of its own
			c["quiet"] = q
		}
		c["shape"], c["dry"], c["anti"], c["silent"], c["bound"] = "stereo", "", false, false, 1<<29
	}
	for i := 0; i < nInst; i++ {
		ops = append(ops, vh.Op{"op": "new", "i": i + 1, "c": c})
	}
	for {
		alive := []int{}
		for i := range lists {
			if len(lists[i]) > 0 {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			break
		}
		i := alive[r.Intn(len(alive))]
		n := 1 + r.Intn(4)
		for ; n > 0 && len(lists[i]) > 0; n-- {
			ops = append(ops, lists[i][0])
			lists[i] = lists[i][1:]
		}
	}
	last := 1 + r.Intn(nInst)
	vs := append(append([]string{}, mono...), ster...)
	if mode == "level" && e.decays && r.Intn(3) > 0 {
		ops = append(ops, vh.Op{"op": "tail", "i": last, "via": vs[r.Intn(len(vs))], "n": 1600})
	} else if mode == "alloc" && e.allocs {
		ops = append(ops, vh.Op{"op": "allocs", "i": last, "via": vs[r.Intn(len(vs))], "n": []int{1, 32, 64, 513, 1025, 4096}[r.Intn(6)]})
	}
	return ops
}

func init() {
	// entries are registered by the other file of this package, before generation starts
	for m, n := range map[string]int{"split": 20, "reset": 20, "level": 8, "alloc": 10} {
		m := m
		vh.Register(&vh.Domain{Name: "trans-" + m, New: func() vh.Subject { return &transSubj{} },
			Gen: func(r *rand.Rand, idx int, tier string) []vh.Op { return genTrans(r, idx, m) }, Quick: 44 * n, Thorough: 44 * n * 10})
	}
}
