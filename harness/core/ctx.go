package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/vh"
)

// t64 converts a normalised value to 64ths; inexact values become a sentinel.
func t64(x float64) int { return exact(x * 64) }

// exact converts to int when the value is an integer; anything else shows as a
// number no specification produces.
func exact(x float64) int {
	if math.IsNaN(x) {
		return -777777777
	}
	if math.IsInf(x, 0) || math.Abs(x) > 1e9 {
		return -777777776
	}
	if x != math.Trunc(x) {
		return -777777000 - int(math.Abs(math.Mod(x*100, 500)))
	}
	return int(x)
}

func toBuf(l []any) []float32 {
	r := make([]float32, len(l))
	for i := range l {
		r[i] = float32(vh.ToInt(l[i]))
	}
	return r
}

func toBufs(l []any) [][]float32 {
	r := make([][]float32, len(l))
	for i := range l {
		r[i] = toBuf(vh.ToList(l[i]))
	}
	return r
}

func fromBuf(b []float32) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = exact(float64(x))
	}
	return r
}

func fromBufs(bs [][]float32) [][]int {
	r := make([][]int, len(bs))
	for i := range bs {
		r[i] = fromBuf(bs[i])
	}
	return r
}

func toF64s(l []any) []float64 {
	r := make([]float64, len(l))
	for i := range l {
		r[i] = float64(vh.ToInt(l[i]))
	}
	return r
}

type ctxSubj struct {
	c *process.Context
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func tagFn(ch int, in, out []float32) {
	for i := range out {
		if i < len(in) {
			out[i] = in[i] + float32(1000*(ch+1))
		}
	}
}

func (s *ctxSubj) Do(o vh.Op) any {
	c := s.c
	none := []int{}
	switch o.S("op") {
	case "new":
		reg := param.NewRegistry()
		for _, id := range o.IL("ids") {
			// plain range -64..128 so that plain = 3*v - 64 for v 64ths
			reg.Add(param.New(uint32(id), "p").Range(-64, 128).Default(-64).Build())
		}
		s.c = process.NewContext(o.I("n"), reg)
		return none
	case "block":
		c.Input, c.Output = toBufs(o.L("ins")), toBufs(o.L("outs"))
		for ch, x := range o.IL("share") {
			if x == 1 {
				c.Output[ch] = c.Input[ch]
			}
		}
		return none
	case "addchange":
		c.AddParameterChange(uint32(o.I("id")), float64(o.I("v"))/64, o.I("o"))
		return none
	case "sort":
		c.SortParameterChanges()
		return none
	case "changes":
		r := [][]int{}
		for _, x := range c.GetParameterChanges() {
			r = append(r, []int{int(x.ParamID), t64(x.Value), x.SampleOffset})
		}
		return r
	case "haschanges":
		return []int{b2i(c.HasParameterChanges())}
	case "resetchanges":
		c.ResetParameterChanges()
		return none
	case "apply":
		c.ApplyParameterChange(process.ParameterChange{ParamID: uint32(o.I("id")), Value: float64(o.I("v")) / 64})
		return none
	case "setat":
		c.SetParameterAtOffset(uint32(o.I("id")), float64(o.I("v"))/64, 0)
		return none
	case "applyqueued":
		for _, x := range c.GetParameterChanges() {
			c.ApplyParameterChange(x)
		}
		return none
	case "value":
		id := uint32(o.I("id"))
		return []int{t64(c.Param(id)), exact(c.ParamPlain(id))}
	case "evin":
		t := o.IL("ev")
		c.AddInputEvent(mkEvent(t[0], t[1], t[2]))
		return none
	case "evout":
		t := o.IL("ev")
		c.AddOutputEvent(mkEvent(t[0], t[1], t[2]))
		return none
	case "getin":
		return evList(c.GetInputEvents(int32(o.I("a")), int32(o.I("b"))))
	case "procev":
		k := &evSink{}
		c.ProcessEvents(k, int32(o.I("a")), int32(o.I("b")))
		return evList(k.l)
	case "allin":
		return evList(c.GetAllInputEvents())
	case "hasin":
		return []int{b2i(c.HasInputEvents())}
	case "getout":
		return evList(c.GetOutputEvents())
	case "clearin":
		c.ClearInputEvents()
		return none
	case "clearout":
		c.ClearOutputEvents()
		return none
	case "clearev":
		c.ClearAllEvents()
		return none
	case "sizes":
		return []int{c.NumSamples(), c.NumInputChannels(), c.NumOutputChannels(), c.GetNumChannels(), c.GetNumStereoChannels()}
	case "scratch":
		w, t := c.WorkBuffer(), c.TempBuffer()
		for i := range w {
			w[i] = 1
		}
		for i := range t {
			t[i] = 2
		}
		sw, st := 0, 0
		for _, x := range c.WorkBuffer() {
			sw += int(x)
		}
		for _, x := range c.TempBuffer() {
			st += int(x)
		}
		r := []any{len(w), len(t), sw, st}
		for _, b := range c.Input {
			r = append(r, fromBuf(b))
		}
		for _, b := range c.Output {
			r = append(r, fromBuf(b))
		}
		return r
	case "pass":
		c.PassThrough()
	case "copyio":
		c.CopyInputToOutput()
	case "channels":
		c.ProcessChannels(tagFn)
	case "stereo":
		c.ProcessStereo(tagFn)
	case "mono":
		c.ProcessMono(func(in, out []float32) { tagFn(0, in, out) })
	case "separate":
		fns := []func(in, out []float32){}
		for ch := 0; ch < o.I("k"); ch++ {
			fns = append(fns, func(in, out []float32) { tagFn(ch, in, out) })
		}
		c.ProcessChannelsSeparately(fns...)
	case "samples":
		c.ProcessSamples(func(smp int, in, out []float32) {
			for ch := range out {
				out[ch] = in[ch] + float32(1000*(ch+1)+10000*smp)
			}
		})
	case "clearbuf":
		c.Clear()
	default:
		panic("harness: unknown op")
	}
	return fromBufs(c.Output)
}

func genCtx(focus string) func(r *rand.Rand, i int, tier string) []vh.Op {
	return func(r *rand.Rand, i int, tier string) []vh.Op {
		bs := 1 + r.Intn(16)
		ids := []int{}
		for k := 0; k < 1+r.Intn(8); k++ {
			ids = append(ids, k*3)
		}
		ops := []vh.Op{{"op": "new", "n": bs, "ids": ids}}
		id := func() int { return r.Intn(3*len(ids) + 2) }
		block := func() vh.Op {
			n := r.Intn(bs + 1)
			mk := func(base, k int) [][]int {
				l := [][]int{}
				for c := 0; c < k; c++ {
					b := []int{}
					for s := 0; s < n; s++ {
						b = append(b, base*100+c*20+s+r.Intn(3))
					}
					l = append(l, b)
				}
				return l
			}
			ins, outs := mk(1, r.Intn(5)), mk(5, r.Intn(5))
			share := make([]int, len(outs))
			if k := r.Intn(4); k > 0 { // all, some or none of the channels are processed in place
				for c := range share {
					if c < len(ins) && (k == 1 || r.Intn(2) == 0) {
						share[c] = 1
					}
				}
			}
			return vh.Op{"op": "block", "ins": ins, "outs": outs, "share": share}
		}
		change := func() vh.Op {
			return vh.Op{"op": "addchange", "id": id(), "v": r.Intn(80) - 8, "o": r.Intn(bs)}
		}
		ev := 0
		switch focus {
		case "params":
			for b := 0; b < 3; b++ {
				n := r.Intn(30)
				if r.Intn(4) == 0 {
					n = 120 + r.Intn(20)
				}
				for k := 0; k < n; k++ {
					ops = append(ops, change())
				}
				if r.Intn(4) > 0 {
					ops = append(ops, vh.Op{"op": "sort"})
				}
				ops = append(ops, vh.Op{"op": "changes"}, vh.Op{"op": "haschanges"})
				if r.Intn(2) == 0 {
					ops = append(ops, vh.Op{"op": "applyqueued"})
				}
				if r.Intn(2) == 0 {
					ops = append(ops, vh.Op{"op": []string{"apply", "setat"}[r.Intn(2)], "id": id(), "v": r.Intn(80) - 8})
				}
				for k := 0; k < 3; k++ {
					ops = append(ops, vh.Op{"op": "value", "id": id()})
				}
				if r.Intn(3) > 0 {
					ops = append(ops, vh.Op{"op": "resetchanges"}, vh.Op{"op": "haschanges"}, vh.Op{"op": "changes"})
				}
			}
		case "events":
			ops = append(ops, block())
			for len(ops) < 50 {
				ev++
				switch r.Intn(12) {
				case 0, 1, 2, 3:
					ops = append(ops, vh.Op{"op": "evin", "ev": []int{r.Intn(11), ev, r.Intn(bs+4) - 1}})
				case 4:
					ops = append(ops, vh.Op{"op": "evout", "ev": []int{r.Intn(11), ev, r.Intn(bs + 2)}})
				case 5:
					a := r.Intn(bs+2) - 1
					ops = append(ops, vh.Op{"op": []string{"getin", "procev"}[r.Intn(2)], "a": a, "b": a + r.Intn(bs+1)})
				case 6:
					ops = append(ops, vh.Op{"op": "allin"})
				case 7:
					ops = append(ops, vh.Op{"op": "hasin"})
				case 8:
					ops = append(ops, vh.Op{"op": "getout"})
				case 9:
					if r.Intn(3) == 0 {
						ops = append(ops, vh.Op{"op": []string{"clearin", "clearout", "clearev"}[r.Intn(3)]})
					}
				case 10:
					if r.Intn(4) == 0 {
						ops = append(ops, block())
					}
				}
			}
			ops = append(ops, vh.Op{"op": "allin"}, vh.Op{"op": "getout"})
		case "buffers":
			kinds := []string{"sizes", "scratch", "pass", "copyio", "channels", "stereo", "mono", "samples", "clearbuf", "separate"}
			for len(ops) < 25 {
				if len(ops) == 1 || r.Intn(4) == 0 {
					if b := block(); r.Intn(4) == 0 { // an input that is there but not fed
						l := [][]int{}
						for range b["ins"].([][]int) {
							l = append(l, []int{})
						}
						b["ins"], b["share"] = l, make([]int, len(b["outs"].([][]int)))
						ops = append(ops, b, vh.Op{"op": "sizes"}, vh.Op{"op": "scratch"}, vh.Op{"op": "pass"}, vh.Op{"op": "clearbuf"})
					}
					ops = append(ops, block())
				}
				op := vh.Op{"op": kinds[r.Intn(len(kinds))]}
				if op["op"] == "separate" {
					op["k"] = r.Intn(5)
				}
				ops = append(ops, op)
			}
		}
		return ops
	}
}

var _ midi.Event

func init() {
	for _, f := range []string{"params", "events", "buffers"} {
		vh.Register(&vh.Domain{Name: "ctx-" + f, New: func() vh.Subject { return &ctxSubj{} },
			Gen: genCtx(f), Quick: 600, Thorough: 3000})
	}
}
