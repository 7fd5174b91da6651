package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

// builderSubj is a builder, and the parameters it built.
type builderSubj struct {
	b    *param.Builder
	made []*param.Parameter
}

func builtFacts(p *param.Parameter) []any {
	if p.GetPlainValue() != p.Denormalize(p.GetValue()) {
		panic("the value in plain differs")
	}
	return []any{int(p.ID), p.Name, p.ShortName, signs.Replace(p.Unit), th(p.Min), th(p.Max), th(p.Denormalize(p.DefaultValue)), int(p.StepCount), bitsOf(p.Flags), th(p.GetPlainValue())}
}

// marked gives the functions that show and read values marked with s; nil for none.
func marked(s string) (func(float64) string, func(string) (float64, error)) {
	if s == "" {
		return nil, nil
	}
	return func(v float64) string { return s + strconv.Itoa(th(v)) }, func(t string) (float64, error) {
		if !strings.HasPrefix(t, s) {
			return 0, fmt.Errorf("no %s", s)
		}
		n, err := strconv.Atoi(t[len(s):])
		return float64(n) / 1000, err
	}
}

func bitsOf(x uint32) []int {
	r := []int{}
	for i := 0; i < 32; i++ {
		if x>>i&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

func (s *builderSubj) Do(o vh.Op) any {
	f := func(k string) float64 { return float64(o.I(k)) / 1000 }
	none := []int{}
	switch o.S("op") {
	case "new":
		s.made = nil
		if o.S("k") == "bare" {
			s.b = param.New(uint32(o.I("id")), o.S("name"))
		} else {
			s.b = mkBuilder(o, uint32(o.I("id")), o.S("name"))
		}
		return none
	case "build":
		s.made = append(s.made, s.b.Build())
		return builtFacts(s.made[len(s.made)-1])
	case "facts":
		return builtFacts(s.made[o.I("i")-1])
	case "show":
		p := s.made[o.I("i")-1]
		text := p.FormatValue(p.Normalize(f("x")))
		y, err := p.ParseValue(text)
		_, bad := p.ParseValue("no such value")
		o["text"], o["y"], o["bad"] = text, th(p.Denormalize(y)), bad != nil
		if err != nil {
			o["y"] = 1 << 30
		}
		return none
	case "reformat":
		s.made[o.I("i")-1].SetFormatter(marked(o.S("s")))
		return none
	case "set":
		p := s.made[o.I("i")-1]
		p.SetPlainValue(f("x"))
		return []int{th(p.GetPlainValue())}
	}
	b := s.b
	var r *param.Builder
	switch o.S("op") {
	case "short":
		r = b.ShortName(o.S("s"))
	case "unit":
		r = b.Unit(o.S("s"))
	case "range":
		r = b.Range(f("lo"), f("hi"))
	case "default":
		r = b.Default(f("d"))
	case "steps":
		r = b.Steps(int32(o.I("n")))
	case "flags":
		x := uint32(0)
		for _, v := range o.IL("bits") {
			x |= 1 << v
		}
		r = b.Flags(x)
	case "toggle":
		r = b.Toggle()
	case "readonly":
		r = b.ReadOnly()
	case "hidden":
		r = b.Hidden()
	case "bypass":
		r = b.Bypass()
	case "format":
		r = b.Formatter(marked(o.S("s")))
	default:
		panic("harness: unknown op")
	}
	if r != b {
		panic("another builder")
	}
	return none
}

func genBuilder(r *rand.Rand, i int, tier string) []vh.Op {
	op := vh.Op{"op": "new", "k": "bare"}
	lo, hi, fm := 0, 1000, ""
	if r.Intn(3) == 0 {
		for op = genText(r, r.Intn(len(textKinds)), tier)[0]; op.S("op") != "new"; {
			op = genText(r, r.Intn(len(textKinds)), tier)[0]
		}
		fm, hi = "own", -1 // the range is not known here
		if op.S("k") == "plain" {
			fm = ""
		}
	}
	op["id"], op["name"] = r.Intn(1000), []string{"Gain", "Output Level", "Größe", ""}[r.Intn(4)]
	ops := []vh.Op{op}
	add := func(o vh.Op) { ops = append(ops, o) }
	word := func() string { return []string{"G", "dB", "Hz", "", "long text", "%"}[r.Intn(6)] }
	type span struct {
		lo, hi int
		fm     string
	}
	made := []span{}
	say := func() {
		switch r.Intn(13) {
		case 0:
			add(vh.Op{"op": "short", "s": word()})
		case 1:
			add(vh.Op{"op": "unit", "s": word()})
		case 2, 3:
			lo = (r.Intn(400) - 200) * 500
			hi = lo + 500*r.Intn(300)
			if r.Intn(10) == 0 {
				hi = lo
			}
			add(vh.Op{"op": "range", "lo": lo, "hi": hi})
		case 4, 5, 6:
			add(vh.Op{"op": "default", "d": (r.Intn(400) - 200) * 500})
		case 7:
			add(vh.Op{"op": "steps", "n": r.Intn(12)})
		case 8:
			bits := []any{}
			for _, x := range []int{0, 1, 2, 3, 4, 15, 16} {
				if r.Intn(3) == 0 {
					bits = append(bits, x)
				}
			}
			add(vh.Op{"op": "flags", "bits": bits})
		case 9:
			add(vh.Op{"op": "toggle"})
			lo, hi = 0, 1000
		case 10:
			add(vh.Op{"op": []string{"readonly", "hidden", "bypass"}[r.Intn(3)]})
		case 11:
			add(vh.Op{"op": []string{"readonly", "hidden", "bypass"}[r.Intn(3)]})
		case 12:
			fm = []string{"", "a", "b:"}[r.Intn(3)]
			add(vh.Op{"op": "format", "s": fm})
		}
	}
	build := func() {
		add(vh.Op{"op": "build"})
		made = append(made, span{lo, hi, fm})
	}
	for j := r.Intn(12); j > 0; j-- {
		say()
	}
	build()
	for j := r.Intn(16); j > 0; j-- {
		i := r.Intn(len(made))
		m := &made[i]
		switch r.Intn(10) {
		case 0:
			m.fm = []string{"", "a", "b:"}[r.Intn(3)]
			add(vh.Op{"op": "reformat", "i": i + 1, "s": m.fm})
		case 1:
			add(vh.Op{"op": "set", "i": i + 1, "x": (r.Intn(400) - 200) * 500})
		case 2:
			build()
		case 3, 4:
			say()
		case 5:
			add(vh.Op{"op": "facts", "i": i + 1})
		default:
			if m.fm != "own" && m.hi > m.lo {
				add(vh.Op{"op": "show", "i": i + 1, "x": m.lo + r.Intn(m.hi-m.lo+1)})
			}
		}
	}
	for i := range made {
		add(vh.Op{"op": "facts", "i": i + 1})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "builder", New: func() vh.Subject { return &builderSubj{} }, Gen: genBuilder, Quick: 2400, Thorough: 20000})
}
