package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/vh"
)

type mbusSubj struct {
	m   *process.MultiBusContext
	cfg *bus.Configuration
}

func toChans(l []any) [][]float32 {
	r := [][]float32{}
	for _, c := range l {
		b := []float32{}
		for _, x := range vh.ToList(c) {
			b = append(b, float32(vh.ToInt(x)))
		}
		r = append(r, b)
	}
	return r
}

func fromChans(c [][]float32) []any {
	r := []any{}
	for _, b := range c {
		l := []int{}
		for _, x := range b {
			l = append(l, exact(float64(x)))
		}
		r = append(r, l)
	}
	return r
}

func maybe(c [][]float32) []any {
	if c == nil {
		return []any{}
	}
	return []any{fromChans(c)}
}

func (s *mbusSubj) Do(o vh.Op) any {
	none := []int{}
	m := s.m
	switch o.S("op") {
	case "new":
		b := bus.NewBuilder()
		b.WithMonoOutput("placeholder")
		var chans [2][][][]float32
		var acts [2][]bool
		for side, k := range []string{"ins", "outs"} {
			for _, x := range o.L(k) {
				r := vh.ToOp(x)
				ch := toChans(r.L("ch"))
				n := int32(len(ch))
				if n == 0 {
					n = 1
				}
				switch side*2 + r.I("ty") {
				case 0:
					b.WithAudioInput("i", n)
				case 1:
					b.WithAuxInput("i", n)
				case 2:
					b.WithAudioOutput("o", n)
				case 3:
					b.WithAuxOutput("o", n)
				}
				chans[side] = append(chans[side], ch)
				acts[side] = append(acts[side], r.B("act"))
			}
		}
		cfg, err := b.Build()
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.cfg = cfg
		s.m = process.NewMultiBusContext(process.NewContext(64, param.NewRegistry()), cfg)
		for side := 0; side < 2; side++ {
			for i, ch := range chans[side] {
				idx := int32(i + side) // the placeholder is the first output
				cfg.SetBusActive(bus.MediaTypeAudio, bus.Direction(side), idx, acts[side][i])
				bb := process.BusBuffers{Channels: ch, BusInfo: cfg.GetBusInfo(bus.MediaTypeAudio, bus.Direction(side), idx)}
				if side == 0 {
					s.m.InputBuses = append(s.m.InputBuses, bb)
				} else {
					s.m.OutputBuses = append(s.m.OutputBuses, bb)
				}
			}
		}
	case "main":
		if o.I("side") == 0 {
			return maybe(m.GetMainInput())
		}
		return maybe(m.GetMainOutput())
	case "sidechain":
		return maybe(m.GetSidechainInput())
	case "bus":
		if o.I("side") == 0 {
			return maybe(m.GetInputBus(o.I("i")))
		}
		return maybe(m.GetOutputBus(o.I("i")))
	case "info":
		i := m.GetInputBusInfo
		if o.I("side") == 1 {
			i = m.GetOutputBusInfo
		}
		x := i(o.I("i"))
		if x == nil {
			return none
		}
		return []any{[]any{int(x.BusType), x.IsActive}}
	case "num":
		return []int{m.NumInputBuses(), m.NumOutputBuses()}
	case "visit":
		r := []any{}
		f := func(i int, ch [][]float32, info *bus.Info) {
			r = append(r, []any{i, fromChans(ch), int(info.BusType), info.IsActive})
		}
		if o.I("side") == 0 {
			m.ProcessInputBuses(f)
		} else {
			m.ProcessOutputBuses(f)
		}
		return r
	case "procmain":
		r := []any{}
		m.ProcessMainBuses(func(in, out [][]float32) { r = append(r, fromChans(in), fromChans(out)) })
		return r
	case "procside":
		r := []any{}
		m.ProcessWithSidechain(func(in, sc, out [][]float32) { r = append(r, fromChans(in), maybe(sc), fromChans(out)) })
		return r
	case "active":
		s.cfg.SetBusActive(bus.MediaTypeAudio, bus.Direction(o.I("side")), int32(o.I("i")+o.I("side")), o.B("b"))
	case "clear":
		m.ClearAllOutputs()
	case "pass":
		m.PassThroughAll()
	case "write":
		b := m.GetOutputBus(o.I("i"))[o.I("c")-1]
		for i := range b {
			b[i] = float32(o.I("x"))
		}
	case "dump":
		a, b := []any{}, []any{}
		for i := range m.InputBuses {
			a = append(a, fromChans(m.InputBuses[i].Channels))
		}
		for i := range m.OutputBuses {
			b = append(b, fromChans(m.OutputBuses[i].Channels))
		}
		return []any{a, b}
	default:
		panic("harness: unknown op")
	}
	return none
}

func genMbus(r *rand.Rand, i int, tier string) []vh.Op {
	n := 1 + r.Intn(6)
	var nch [2][]int
	mk := func(side int) []any {
		l := []any{}
		for b := 0; b < r.Intn(5); b++ {
			ch := []any{}
			k := 1 + r.Intn(4)
			for c := 0; c < k; c++ {
				d := []int{}
				m := n
				if r.Intn(10) == 0 {
					m = r.Intn(8)
				}
				for j := 0; j < m; j++ {
					d = append(d, 1+r.Intn(100000))
				}
				ch = append(ch, d)
			}
			l = append(l, map[string]any{"ch": ch, "ty": r.Intn(2), "act": r.Intn(3) > 0})
			nch[side] = append(nch[side], k)
		}
		return l
	}
	ops := []vh.Op{{"op": "new", "ins": mk(0), "outs": mk(1)}}
	for len(ops) < 25 {
		side := r.Intn(2)
		switch r.Intn(12) {
		case 0:
			ops = append(ops, vh.Op{"op": "main", "side": side})
		case 1:
			ops = append(ops, vh.Op{"op": "sidechain"})
		case 2:
			ops = append(ops, vh.Op{"op": "bus", "side": side, "i": r.Intn(7) - 1})
		case 3:
			ops = append(ops, vh.Op{"op": "info", "side": side, "i": r.Intn(7) - 1})
		case 4:
			ops = append(ops, vh.Op{"op": "visit", "side": side})
		case 5:
			ops = append(ops, vh.Op{"op": []string{"procmain", "procside", "num"}[r.Intn(3)]})
		case 6:
			if len(nch[side]) > 0 {
				ops = append(ops, vh.Op{"op": "active", "side": side, "i": r.Intn(len(nch[side])), "b": r.Intn(2) == 0})
			}
		case 7:
			if r.Intn(4) == 0 {
				ops = append(ops, vh.Op{"op": "clear"})
			}
		case 8:
			ops = append(ops, vh.Op{"op": "pass"})
		case 9:
			if len(nch[1]) > 0 {
				b := r.Intn(len(nch[1]))
				ops = append(ops, vh.Op{"op": "write", "i": b, "c": 1 + r.Intn(nch[1][b]), "x": r.Intn(1000)})
			}
		default:
			ops = append(ops, vh.Op{"op": "dump"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "mbus", New: func() vh.Subject { return &mbusSubj{} }, Gen: genMbus, Quick: 900, Thorough: 5000})
}
