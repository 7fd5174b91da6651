package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"verif/vh"
)

// revSubj is one reverb or a filter reverbs are made of.
type revSubj struct {
	k    string
	sch  *reverb.Schroeder
	free *reverb.Freeverb
	fdn  *reverb.FDN
	comb *reverb.CombFilter
	pass *reverb.AllPassFilter
	damp *reverb.DampingFilter
}

func (s *revSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		s.k = o.S("k")
		d := o.I("d")
		switch s.k {
		case "sch":
			s.sch = reverb.NewSchroeder(float64(d))
		case "free":
			s.free = reverb.NewFreeverb(44100 / float64(d))
		case "fdn":
			s.fdn = reverb.NewFDN(o.I("n"), float64(d))
		case "comb":
			s.comb = reverb.NewCombFilter(d)
		case "pass":
			s.pass = reverb.NewAllPassFilter(d)
		case "damp":
			s.damp = reverb.NewDampingFilter()
		}
	case "set":
		x := float64(o.I("x")) / one20
		f := map[string]func(float64){}
		switch s.k {
		case "sch":
			f = map[string]func(float64){"room": s.sch.SetRoomSize, "damp": s.sch.SetDamping, "wet": s.sch.SetWetLevel, "dry": s.sch.SetDryLevel, "width": s.sch.SetWidth}
		case "free":
			f = map[string]func(float64){"room": s.free.SetRoomSize, "damp": s.free.SetDamping, "wet": s.free.SetWetLevel, "dry": s.free.SetDryLevel, "width": s.free.SetWidth, "mode": s.free.SetMode}
		case "fdn":
			f = map[string]func(float64){"decay": s.fdn.SetDecay, "damp": s.fdn.SetDamping, "diff": s.fdn.SetDiffusion, "mod": s.fdn.SetModulation, "wet": s.fdn.SetWetLevel, "dry": s.fdn.SetDryLevel}
		case "comb":
			f = map[string]func(float64){"fb": s.comb.SetFeedback, "damp": s.comb.SetDamping}
		case "pass":
			f = map[string]func(float64){"fb": s.pass.SetFeedback}
		case "damp":
			f = map[string]func(float64){"damp": s.damp.SetDamping}
		}
		f[o.S("f")](x)
	case "preset":
		if s.k == "free" {
			[]func(){s.free.SetPresetSmallRoom, s.free.SetPresetMediumHall, s.free.SetPresetLargeHall, s.free.SetPresetCathedral}[o.I("n")-1]()
		} else {
			[]func(){s.fdn.SetPresetSmallRoom, s.fdn.SetPresetMediumHall, s.fdn.SetPresetLargeHall, s.fdn.SetPresetCathedral}[o.I("n")-1]()
		}
	case "reset":
		switch s.k {
		case "sch":
			s.sch.Reset()
		case "free":
			s.free.Reset()
		case "fdn":
			s.fdn.Reset()
		case "comb":
			s.comb.Reset()
		case "pass":
			s.pass.Reset()
		case "damp":
			s.damp.Reset()
		}
	case "sample":
		c := o.L("x")
		l, r := float32(vh.ToInt(c[0]))/one20, float32(vh.ToInt(c[len(c)-1]))/one20
		var mono func(float32) float32
		var stereo func(l, r float32) (float32, float32)
		switch s.k {
		case "sch":
			mono, stereo = s.sch.Process, s.sch.ProcessStereo
		case "free":
			mono, stereo = s.free.Process, s.free.ProcessStereo
		case "fdn":
			mono, stereo = s.fdn.Process, s.fdn.ProcessStereo
		case "comb":
			mono = s.comb.Process
		case "pass":
			mono = s.pass.Process
		case "damp":
			mono = s.damp.Process
		}
		if len(c) == 1 {
			o["y"] = []int{q20(float64(mono(l)))}
		} else {
			a, b := stereo(l, r)
			o["y"] = []int{q20(float64(a)), q20(float64(b))}
		}
	case "idle": // silence: nothing comes out, and what modulates the lines moves on
		y := 0
		for n := o.I("n"); n > 0; n-- {
			v := q20(float64(s.fdn.Process(0)))
			y = max(y, v, -v)
		}
		o["y"] = y
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genReverbs(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"free", "fdn", "sch", "fdn", "free", "comb", "fdn", "pass", "sch", "damp"}[i%10]
	op := vh.Op{"op": "new", "k": k, "d": 1, "n": 0}
	var fs []string
	switch k {
	case "sch":
		op["d"], fs = []int{700, 700, 1500, 2500}[r.Intn(4)], []string{"room", "damp", "wet", "dry", "width"}
	case "free":
		op["d"], fs = []int{128, 128, 64, 32}[r.Intn(4)], []string{"room", "damp", "wet", "dry", "width", "mode"}
	case "fdn":
		op["d"], op["n"] = []int{1024, 1024, 2048, 4096}[r.Intn(4)], []int{4, 8, 4, 8, 1, 2, 3, 5, 6, 16, 17}[r.Intn(11)]
		fs = []string{"decay", "damp", "diff", "mod", "wet", "dry"}
	case "comb":
		op["d"], fs = 1+r.Intn(20), []string{"fb", "damp"}
	case "pass":
		op["d"], fs = 1+r.Intn(20), []string{"fb"}
	case "damp":
		fs = []string{"damp"}
	}
	ops := []vh.Op{op}
	add := func(o vh.Op) { ops = append(ops, o) }
	set := func() {
		x := []int{r.Intn(65) * 16384, r.Intn(65) * 16384, r.Intn(65) * 16384, 0, one20, one20 + 65536, -65536}[r.Intn(7)]
		f := fs[r.Intn(len(fs))]
		if k == "pass" {
			x = (r.Intn(97) - 48) * 16384
		}
		if k == "comb" && f == "fb" {
			x = (r.Intn(70) - 10) * 16384
		}
		if f == "mode" {
			x = []int{0, 0, one20, one20 / 2, one20/2 - 1024, 2 * one20}[r.Intn(6)]
		}
		add(vh.Op{"op": "set", "f": f, "x": x})
	}
	for j := r.Intn(6); j > 0; j-- {
		set()
	}
	if k == "free" || k == "fdn" {
		if r.Intn(4) == 0 {
			add(vh.Op{"op": "preset", "n": 1 + r.Intn(4)})
		}
	}
	idle := func() {
		if k == "fdn" && r.Intn(3) > 0 {
			add(vh.Op{"op": "set", "f": "mod", "x": []int{one20, one20 / 2, r.Intn(65) * 16384}[r.Intn(3)]})
			add(vh.Op{"op": "idle", "n": r.Intn(3*vh.ToInt(op["d"]) + 1)})
		}
	}
	idle()
	two, level, density := r.Intn(2) == 0, 1024, 1+r.Intn(8)
	if k == "free" {
		level = 8192 // what goes in is turned down a lot
	}
	for n := 0; n < 160; n++ {
		switch r.Intn(60) {
		case 0:
			set()
		case 1:
			set()
			set()
		case 2:
			two = !two
		case 3:
			density = 1 + r.Intn(30)
		case 4:
			if r.Intn(2) == 0 {
				add(vh.Op{"op": "reset"})
				for j := r.Intn(4); j > 0; j-- { // settings that find what a reset left
					set()
				}
				idle()
			}
		case 5:
			if (k == "free" || k == "fdn") && r.Intn(2) == 0 {
				add(vh.Op{"op": "preset", "n": 1 + r.Intn(4)})
			}
		}
		v := func() int {
			if r.Intn(density) > 0 {
				return 0
			}
			return 1024 * (r.Intn(2*level+1) - level)
		}
		x := []any{v()}
		if two && (k == "free" || k == "fdn" || k == "sch") {
			x = append(x, v())
		}
		add(vh.Op{"op": "sample", "x": x})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "reverbs", New: func() vh.Subject { return &revSubj{} }, Gen: genReverbs, Quick: 240, Thorough: 1500})
}
