package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	"verif/vh"
)

// adapterSubj runs an adapter or ready-made chain next to the parts it is made of.
type adapterSubj struct {
	p     fdsp.Processor
	noise *fdsp.NoiseAdapter
	parts []func(float32) float32
	reset []func()
	one   bool
}

func mkComp(sr float64, a []any) *dynamics.Compressor {
	c := dynamics.NewCompressor(sr)
	c.SetThreshold(float64(vh.ToInt(a[1])))
	c.SetRatio(float64(vh.ToInt(a[2])))
	c.SetAttack(float64(vh.ToInt(a[3])) / 1000)
	c.SetRelease(float64(vh.ToInt(a[4])) / 1000)
	return c
}

func mkGate(sr float64, a []any) *dynamics.Gate {
	g := dynamics.NewGate(sr)
	g.SetThreshold(float64(vh.ToInt(a[1])))
	g.SetRange(float64(vh.ToInt(a[2])))
	return g
}

func (s *adapterSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		*s = adapterSubj{}
		sr := float64(o.I("sr"))
		for _, x := range o.L("parts") {
			a := vh.ToList(x)
			switch a[0].(string) {
			case "comp":
				c := mkComp(sr, a)
				s.parts, s.reset = append(s.parts, c.Process), append(s.reset, c.Reset)
			case "gate":
				g := mkGate(sr, a)
				s.parts, s.reset = append(s.parts, g.Process), append(s.reset, g.Reset)
			case "dc":
				d := utility.NewSimpleDCBlocker(sr)
				s.parts, s.reset = append(s.parts, d.Process), append(s.reset, d.Reset)
			}
		}
		set := append([]any{""}, o.L("set")...)
		var c *fdsp.Chain
		var err error
		switch o.S("k") {
		case "comp":
			s.p = fdsp.NewCompressorAdapter(mkComp(sr, set))
		case "gate":
			s.p = fdsp.NewGateAdapter(mkGate(sr, set))
		case "dc":
			s.p = fdsp.NewDCBlockerAdapter(sr)
		case "noise":
			s.noise = fdsp.NewNoiseAdapter(noiseType[o.S("c")], float32(o.I("mix"))/one20)
			s.p = s.noise
		case "simple":
			c, err = fdsp.CreateSimpleChain(sr)
		case "dynamics":
			c, err = fdsp.CreateDynamicsChain(sr)
		}
		if err != nil {
			return err.Error()
		}
		if c != nil {
			s.p = c
		}
		return []int{len(s.parts)}
	case "mix":
		s.noise.SetMix(float32(o.I("mix")) / one20)
		return []int{}
	case "reset":
		s.p.Reset()
		for _, f := range s.reset {
			f()
		}
		return []int{}
	case "run":
		x := o.IL("x")
		b := make([]float32, len(x))
		z := make([]int, len(x))
		for i := range x {
			b[i] = float32(x[i]) / one20
			v := b[i]
			for _, f := range s.parts {
				v = f(v)
			}
			z[i] = q20(float64(v))
		}
		s.p.Process(b)
		y := make([]int, len(x))
		for i := range b {
			y[i] = q20(float64(b[i]))
		}
		o["y"], o["z"] = y, z
		return []int{len(x)}
	}
	panic("harness: unknown op")
}

func genAdapters(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"comp", "gate", "dc", "simple", "dynamics", "noise"}[i%6]
	set := []any{}
	parts := []any{}
	mk := func(a ...any) { parts = append(parts, a) }
	switch k {
	case "comp":
		set = []any{-r.Intn(40), 1 + r.Intn(10), 1 + r.Intn(30), 10 + r.Intn(200)}
		mk(append([]any{k}, set...)...)
	case "gate":
		set = []any{-6 - r.Intn(50), -r.Intn(80)}
		mk(append([]any{k}, set...)...)
	case "dc", "simple":
		mk("dc")
	case "dynamics":
		mk("gate", -40, -60)
		mk("comp", -20, 4, 10, 100)
	}
	level := func() int { return []int{0, 1 << 10, 1 << 17, 1 << 20}[r.Intn(4)] }
	ops := []vh.Op{{"op": "new", "k": k, "sr": []int{8000, 44100, 48000}[r.Intn(3)], "set": set, "parts": parts, "mix": level(),
		"c": []string{"white", "pink", "brown", "blue", "violet"}[r.Intn(5)]}}
	for len(ops) < 14 {
		if r.Intn(9) == 0 {
			ops = append(ops, vh.Op{"op": "reset"})
		}
		if k == "noise" && r.Intn(4) == 0 {
			ops = append(ops, vh.Op{"op": "mix", "mix": level()})
		}
		x := make([]int, []int{0, 1, 7, 64, 64}[r.Intn(5)])
		a, dc := []int{1 << 20, 1 << 19, 1 << 16, 1 << 10, 0}[r.Intn(5)], r.Intn(2)*r.Intn(1<<18)
		for j := range x {
			x[j] = dc
			if a > 0 {
				x[j] += r.Intn(2*a+1) - a
			}
			if k == "noise" {
				x[j] &^= 1023
			}
		}
		ops = append(ops, vh.Op{"op": "run", "x": x})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "adapters", New: func() vh.Subject { return &adapterSubj{} }, Gen: genAdapters, Quick: 900, Thorough: 4000})
}
