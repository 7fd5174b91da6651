package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

type paramSubj struct{ p *param.Parameter }

func (s *paramSubj) obs() []int { return []int{t64(s.p.GetValue()), exact(s.p.GetPlainValue())} }

func (s *paramSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		lo, k := float64(o.I("lo")), float64(o.I("k"))
		b := param.New(1, "p").Range(lo, lo+64*k).Default(float64(o.I("d")))
		// what does not concern the stored value: flags, steps, units, text conversion
		look := 0
		if o["look"] != nil {
			look = o.I("look")
		}
		if look%2 == 1 {
			b = b.Flags([]uint32{param.IsWrapAround, param.IsWrapAround | param.CanAutomate, param.IsReadOnly, param.IsList,
				param.IsHidden, param.IsProgramChange, param.IsBypass, 0}[look/2%8])
		}
		if look/16%3 == 1 {
			b = b.Steps(int32(1 + look%70))
		}
		if look/48%3 == 1 {
			b = b.Unit("dB").Formatter(func(v float64) string { return "x" }, func(string) (float64, error) { return 0, nil })
		}
		s.p = b.Build()
	case "setn":
		s.p.SetValue(float64(o.I("x")) / 64)
	case "setp":
		s.p.SetPlainValue(float64(o.I("p")))
	case "setodd":
		x := map[string]float64{"inf": math.Inf(1), "-inf": math.Inf(-1), "nan": math.NaN()}[o.S("x")]
		if s.p.Max > s.p.Min && o.I("plain") == 1 {
			s.p.SetPlainValue(x)
		} else {
			s.p.SetValue(x)
		}
	case "get":
	case "norm":
		return []int{t64(s.p.Normalize(float64(o.I("p"))))}
	case "denorm":
		return []int{exact(s.p.Denormalize(float64(o.I("x")) / 64))}
	default:
		panic("harness: unknown op")
	}
	return s.obs()
}

func genParam(r *rand.Rand, i int, tier string) []vh.Op {
	k := []int{0, 1, 2, 3, 10, 100, -1, -4}[r.Intn(8)]
	lo := r.Intn(2000) - 1000
	kk := k
	if kk <= 0 {
		kk = 1
	}
	plain := func() int {
		switch r.Intn(5) {
		case 0:
			return lo - r.Intn(100000)
		case 1:
			return lo + 64*kk + r.Intn(100000)
		}
		return lo + kk*r.Intn(65)
	}
	ops := []vh.Op{{"op": "new", "lo": lo, "k": k, "d": plain(), "look": r.Intn(144)}}
	for len(ops) < 40 {
		switch r.Intn(7) {
		case 0, 1:
			ops = append(ops, vh.Op{"op": "setn", "x": r.Intn(65)})
		case 2:
			ops = append(ops, vh.Op{"op": "setn", "x": []int{-1, -64, 65, 128, 100000, -100000}[r.Intn(6)]})
		case 3:
			ops = append(ops, vh.Op{"op": "setp", "p": plain()})
		case 4:
			ops = append(ops, vh.Op{"op": "setodd", "x": []string{"inf", "-inf", "nan"}[r.Intn(3)], "plain": r.Intn(2)})
		case 5:
			ops = append(ops, vh.Op{"op": "norm", "p": plain()})
		case 6:
			ops = append(ops, vh.Op{"op": "denorm", "x": r.Intn(130) - 30})
		}
		if r.Intn(4) == 0 {
			ops = append(ops, vh.Op{"op": "get"})
		}
	}
	return ops
}

type regSubj struct {
	plain *param.Registry
	auto  *param.AutoRegistry
	tags  map[*param.Parameter]int
}

func (s *regSubj) mk(t []any) *param.Parameter {
	p := param.New(uint32(vh.ToInt(t[0])), t[1].(string)).Build()
	s.tags[p] = vh.ToInt(t[2])
	return p
}

func (s *regSubj) entry(p *param.Parameter) []any {
	tag, ok := s.tags[p]
	if !ok {
		tag = -1
	}
	return []any{int(p.ID), p.Name, tag}
}

func (s *regSubj) Do(o vh.Op) any {
	one := func(p *param.Parameter) any {
		if p == nil {
			return []any{}
		}
		return []any{s.entry(p)}
	}
	params := func(k string) []*param.Parameter {
		r := []*param.Parameter{}
		for _, x := range o.L(k) {
			r = append(r, s.mk(vh.ToList(x)))
		}
		return r
	}
	switch o.S("op") {
	case "new":
		s.tags = map[*param.Parameter]int{}
		if o.S("kind") == "auto" {
			s.auto = param.NewAutoRegistry()
			s.plain = s.auto.Registry
		} else {
			s.plain = param.NewRegistry()
		}
		return []any{}
	case "add":
		return []int{b2i(s.plain.Add(params("ps")...) == nil)}
	case "get":
		return one(s.plain.Get(uint32(o.I("id"))))
	case "at":
		return one(s.plain.GetByIndex(int32(o.I("i"))))
	case "count":
		return []int{int(s.plain.Count())}
	case "all":
		r := []any{}
		all := s.plain.All()
		for _, p := range all {
			r = append(r, s.entry(p))
		}
		for i := range all {
			all[i] = nil // the result is a private copy
		}
		return r
	case "register":
		ps := params("ps")
		n := len(ps)
		err := s.auto.Register(ps...)
		ids := []int{}
		if err != nil {
			// ids given before the conflict
			n = 0
			for _, p := range ps {
				if s.auto.GetByName(p.Name) != p && !later(ps, p) {
					break
				}
				n++
			}
		}
		for _, p := range ps[:n] {
			ids = append(ids, int(p.ID))
		}
		return []any{b2i(err == nil), ids}
	case "withid":
		return []int{b2i(s.auto.RegisterWithID(uint32(o.I("id")), s.mk(o.L("p"))) == nil)}
	case "build":
		b := param.NewRegistryBuilder(s.auto)
		for _, x := range o.L("items") {
			t := vh.ToList(x)
			if vh.ToInt(t[3]) == 1 {
				// the ID it came with is another one
				own := []any{(vh.ToInt(t[0])*7 + 3) % 11, t[1], t[2]}
				b.AddWithID(uint32(vh.ToInt(t[0])), s.mk(own))
			} else {
				b.Add(s.mk(t))
			}
		}
		return []int{b2i(b.Build() == nil)}
	case "reserve":
		return []int{int(s.auto.Reserve(uint32(o.I("n"))))}
	case "enable":
		s.auto.EnableAutoID(o.B("b"))
		return []any{}
	case "clear":
		s.auto.Clear()
		return []any{}
	case "byname":
		return one(s.auto.GetByName(o.S("name")))
	case "idof":
		id, ok := s.auto.GetID(o.S("name"))
		if !ok {
			return []int{}
		}
		return []int{int(id)}
	}
	panic("harness: unknown op")
}

// later: a later parameter of the batch with the same name replaced p
func later(ps []*param.Parameter, p *param.Parameter) bool {
	seen := false
	for _, q := range ps {
		if q == p {
			seen = true
		} else if seen && q.Name == p.Name {
			return true
		}
	}
	return false
}

var names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}

func genReg(auto bool) func(r *rand.Rand, i int, tier string) []vh.Op {
	return func(r *rand.Rand, i int, tier string) []vh.Op {
		tag := 0
		item := func(maxID int) []any {
			tag++
			return []any{r.Intn(maxID), names[r.Intn(len(names))], tag}
		}
		if !auto {
			ops := []vh.Op{{"op": "new", "kind": "plain"}}
			span := 3 + r.Intn(20)
			for len(ops) < 40 {
				switch r.Intn(7) {
				case 0, 1, 2:
					l := []any{}
					for k := r.Intn(4); k >= 0; k-- {
						l = append(l, item(span))
					}
					ops = append(ops, vh.Op{"op": "add", "ps": l})
				case 3:
					ops = append(ops, vh.Op{"op": "get", "id": r.Intn(span + 2)})
				case 4:
					ops = append(ops, vh.Op{"op": "at", "i": r.Intn(span+3) - 2})
				case 5:
					ops = append(ops, vh.Op{"op": "count"})
				case 6:
					ops = append(ops, vh.Op{"op": "all"})
				}
			}
			return ops
		}
		ops := []vh.Op{{"op": "new", "kind": "auto"}}
		span := 3 + r.Intn(20)
		for len(ops) < 40 {
			switch r.Intn(14) {
			case 0, 1, 2:
				it := item(span)
				it[0] = 0
				ops = append(ops, vh.Op{"op": "register", "ps": []any{it}})
			case 3:
				l := []any{}
				used := map[string]bool{}
				for k := r.Intn(4); k >= 0; k-- {
					it := item(span)
					if used[it[1].(string)] {
						continue
					}
					used[it[1].(string)] = true
					if r.Intn(3) > 0 {
						it[0] = 0
					}
					l = append(l, it)
				}
				ops = append(ops, vh.Op{"op": "register", "ps": l})
			case 4, 5:
				it := item(span)
				ops = append(ops, vh.Op{"op": "withid", "id": r.Intn(span), "p": it})
			case 6:
				l := []any{}
				for k := r.Intn(4); k >= 0; k-- {
					it := item(span)
					w := r.Intn(2)
					if w == 0 && r.Intn(3) > 0 {
						it[0] = 0
					}
					l = append(l, append(it, w))
				}
				ops = append(ops, vh.Op{"op": "build", "items": l})
			case 7:
				ops = append(ops, vh.Op{"op": "reserve", "n": r.Intn(5)})
			case 8:
				ops = append(ops, vh.Op{"op": "enable", "b": r.Intn(3) > 0})
			case 9:
				if r.Intn(6) == 0 {
					ops = append(ops, vh.Op{"op": "clear"})
				} else {
					ops = append(ops, vh.Op{"op": "add", "ps": []any{item(span)}})
				}
			case 10:
				ops = append(ops, vh.Op{"op": "all"})
			case 11:
				ops = append(ops, vh.Op{"op": "get", "id": r.Intn(span + 2)})
			case 12:
				ops = append(ops, vh.Op{"op": "byname", "name": names[r.Intn(len(names))]})
			case 13:
				ops = append(ops, vh.Op{"op": "idof", "name": names[r.Intn(len(names))]})
			}
		}
		return append(ops, vh.Op{"op": "all"}, vh.Op{"op": "count"})
	}
}

func init() {
	vh.Register(&vh.Domain{Name: "param", New: func() vh.Subject { return &paramSubj{} }, Gen: genParam, Quick: 900, Thorough: 4000})
	vh.Register(&vh.Domain{Name: "reg-plain", New: func() vh.Subject { return &regSubj{} }, Gen: genReg(false), Quick: 600, Thorough: 3000})
	vh.Register(&vh.Domain{Name: "reg-auto", New: func() vh.Subject { return &regSubj{} }, Gen: genReg(true), Quick: 900, Thorough: 4000})
}
