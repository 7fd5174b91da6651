package main

// #include "com.h"
// static struct Steinberg_Vst_ProcessContext* d_ctx(void) { return calloc(1, sizeof(struct Steinberg_Vst_ProcessContext)); }
import "C"
import (
	"math/rand"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/vst3"
	"verif/vh"
)

// dataSubj is a block's data in the host's memory.
type dataSubj struct {
	w    *vst3.ProcessDataWrapper
	mem  []*C.float
	n    int
	free []unsafe.Pointer
}

func (s *dataSubj) alloc(n int) unsafe.Pointer {
	p := C.calloc(C.size_t(n), 1)
	s.free = append(s.free, p)
	return p
}

func (s *dataSubj) Close() {
	for _, p := range s.free {
		C.free(p)
	}
	s.free = nil
}

func (s *dataSubj) piece(k int) []float32 { return unsafe.Slice((*float32)(unsafe.Pointer(s.mem[k])), s.n) }

// lists makes the lists of channels of all buses; with share, those that begin alike are one.
func (s *dataSubj) lists(share bool, all ...[]any) func(c []any) **C.float {
	type list struct {
		c []any
		p **C.float
	}
	var made []list
	make := func(c []any) **C.float {
		ch := (**C.float)(s.alloc(8 * len(c)))
		for j, y := range c {
			if k := vh.ToInt(y); k > 0 {
				unsafe.Slice(ch, len(c))[j] = s.mem[k-1]
			}
		}
		return ch
	}
	find := func(c []any) **C.float {
	next:
		for _, l := range made {
			if len(l.c) < len(c) {
				continue
			}
			for j := range c {
				if vh.ToInt(c[j]) != vh.ToInt(l.c[j]) {
					continue next
				}
			}
			return l.p
		}
		return nil
	}
	if share {
		for n := 8; n > 0; n-- {
			for _, buses := range all {
				for _, x := range buses {
					if c := vh.ToList(x); len(c) == n && find(c) == nil {
						made = append(made, list{c, make(c)})
					}
				}
			}
		}
	}
	return func(c []any) **C.float {
		if p := find(c); p != nil {
			return p
		}
		return make(c)
	}
}

func (s *dataSubj) buses(l []any, lists func([]any) **C.float) (*C.struct_Steinberg_Vst_AudioBusBuffers, C.int) {
	if len(l) == 0 {
		return nil, 0
	}
	b := (*C.struct_Steinberg_Vst_AudioBusBuffers)(s.alloc(len(l) * int(C.sizeof_struct_Steinberg_Vst_AudioBusBuffers)))
	for i, x := range l {
		c := vh.ToList(x)
		var ch **C.float
		if len(c) > 0 {
			ch = lists(c)
			none := true
			for _, y := range c {
				none = none && vh.ToInt(y) == 0
			}
			if none {
				ch = nil
			}
		}
		C.h_bus(b, C.int(i), C.int(len(c)), ch)
	}
	return b, C.int(len(l))
}

func whole(f []float32) []int {
	r := []int{}
	for _, x := range f {
		r = append(r, int(x))
		if float32(int(x)) != x {
			r[len(r)-1] = 99999
		}
	}
	return r
}

func (s *dataSubj) buf(o vh.Op) *vst3.AudioBuffer {
	if o.I("dir") == 0 {
		return s.w.GetInput(o.I("bus"))
	}
	return s.w.GetOutput(o.I("bus"))
}

func (s *dataSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "none":
		s.Close()
		s.w = vst3.NewProcessDataWrapper(nil)
		return []int{b2i(s.w != nil)}
	case "wrap":
		s.Close()
		s.n, s.mem = o.I("n"), nil
		for _, x := range o.L("mem") {
			p := (*C.float)(s.alloc(4*s.n + 4))
			s.mem = append(s.mem, p)
			for i, v := range vh.ToList(x) {
				s.piece(len(s.mem) - 1)[i] = float32(vh.ToInt(v))
			}
		}
		d := (*C.struct_Steinberg_Vst_ProcessData)(s.alloc(int(C.sizeof_struct_Steinberg_Vst_ProcessData)))
		d.numSamples = C.int(s.n)
		lists := s.lists(o.B("share"), o.L("ins"), o.L("outs"))
		d.inputs, d.numInputs = s.buses(o.L("ins"), lists)
		d.outputs, d.numOutputs = s.buses(o.L("outs"), lists)
		c := vh.ToOp(o["ctx"])
		if c.B("there") {
			x := C.d_ctx()
			s.free = append(s.free, unsafe.Pointer(x))
			v := c.IL("num")
			f := func(k int) C.double { return C.double(v[k]) / 16 }
			x.state = C.uint(c.I("flags"))
			x.sampleRate, x.projectTimeMusic, x.barPositionMusic, x.cycleStartMusic, x.cycleEndMusic, x.tempo = f(0), f(1), f(2), f(3), f(4), f(5)
			x.projectTimeSamples, x.systemTime, x.continousTimeSamples = C.int64_t(v[6]), C.int64_t(v[7]), C.int64_t(v[8])
			x.timeSigNumerator, x.timeSigDenominator, x.samplesToNextClock = C.int(v[9]), C.int(v[10]), C.int(v[11])
			d.processContext = x
		}
		s.w = vst3.NewProcessDataWrapper(unsafe.Pointer(d))
		return []int{b2i(s.w != nil), int(s.w.NumSamples()), b2i(s.w.GetContext() != nil)}
	case "bus":
		b := s.buf(o)
		if b == nil {
			return []int{}
		}
		return []int{b.NumChannels(), int(b.NumSamples())}
	case "read", "write":
		var c []float32
		if b := s.buf(o); b != nil {
			c = b.GetChannel(o.I("ch"))
		}
		if o.S("op") == "read" {
			if c == nil {
				return []int{-1}
			}
			return append([]int{cap(c)}, whole(c)...)
		}
		if o.I("i") >= len(c) {
			return []int{0}
		}
		c[o.I("i")] = float32(o.I("v"))
		return []int{1}
	case "host":
		return whole(s.piece(o.I("k") - 1))
	case "scribble":
		s.piece(o.I("k") - 1)[o.I("i")] = float32(o.I("v"))
		return []int{}
	case "context":
		c := s.w.GetContext()
		if c == nil {
			return [][]int{}
		}
		f := func(x float64) int {
			if x*16 != float64(int(x*16)) {
				return 99999999
			}
			return int(x * 16)
		}
		return [][]int{
			{b2i(c.IsPlaying()), b2i(c.IsRecording()), b2i(c.IsCycleActive()), b2i(c.HasTempo()), b2i(c.HasTimeSignature()), b2i(c.HasBarPosition()), b2i(c.HasProjectTimeMusic())},
			{int(c.State)},
			{f(c.SampleRate), f(c.ProjectTimeMusic), f(c.BarPositionMusic), f(c.CycleStartMusic), f(c.CycleEndMusic), f(c.Tempo),
				int(c.ProjectTimeSamples), int(c.SystemTime), int(c.ContinuousTimeSamples), int(c.TimeSigNumerator), int(c.TimeSigDenominator), int(c.SamplesToNextClock)}}
	}
	panic("harness: unknown op")
}

func genData(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	var n, k int
	wrap := func() {
		n = []int{0, 1, 2, 5, 9}[r.Intn(5)]
		k = 1 + r.Intn(6)
		mem := [][]int{}
		for j := 0; j < k; j++ {
			m := []int{}
			for q := 0; q < n; q++ {
				m = append(m, r.Intn(200)-100)
			}
			mem = append(mem, m)
		}
		buses := func() []any {
			l := []any{}
			for c := r.Intn(4); c > 0; c-- {
				b := []any{}
				for q := r.Intn(5); q > 0; q-- {
					b = append(b, r.Intn(k+1))
				}
				l = append(l, b)
			}
			return l
		}
		ins, outs := buses(), buses()
		if r.Intn(2) == 0 { // in place, whole or in part
			for j := range outs {
				if j < len(ins) {
					c := ins[j].([]any)
					switch r.Intn(3) {
					case 0:
						c = c[:r.Intn(len(c)+1)]
					case 1:
						c = append(append([]any{}, c...), r.Intn(k+1))
					}
					outs[j] = c
				}
			}
		}
		v := []any{}
		for j := 0; j < 12; j++ {
			switch r.Intn(3) {
			case 0:
				v = append(v, r.Intn(10))
			case 1:
				v = append(v, r.Intn(1<<30))
			default:
				v = append(v, -r.Intn(5000))
			}
		}
		flags := 0
		for _, b := range []int{1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18} {
			flags |= r.Intn(2) << b
		}
		if r.Intn(3) == 0 {
			flags = 1 << []int{1, 2, 3, 9, 10, 11, 13}[r.Intn(7)]
		}
		ops = append(ops, vh.Op{"op": "wrap", "n": n, "mem": mem, "share": r.Intn(2) == 0, "ins": ins, "outs": outs, "ctx": map[string]any{"there": r.Intn(4) > 0, "flags": flags, "num": v}})
	}
	wrap()
	for len(ops) < 24 {
		at := vh.Op{"dir": r.Intn(2), "bus": r.Intn(5) - 1, "ch": r.Intn(6) - 1}
		switch r.Intn(9) {
		case 0:
			if r.Intn(3) == 0 {
				if r.Intn(4) == 0 {
					ops = append(ops, vh.Op{"op": "none"})
				}
				wrap()
			}
		case 1, 2:
			at["op"] = "bus"
			ops = append(ops, at)
		case 3, 4:
			at["op"] = "read"
			ops = append(ops, at)
		case 5:
			at["op"], at["i"], at["v"] = "write", r.Intn(9), r.Intn(100)
			ops = append(ops, at)
		case 6:
			ops = append(ops, vh.Op{"op": "host", "k": 1 + r.Intn(k)})
		case 7:
			if n > 0 {
				ops = append(ops, vh.Op{"op": "scribble", "k": 1 + r.Intn(k), "i": r.Intn(n), "v": r.Intn(100)})
			}
		case 8:
			ops = append(ops, vh.Op{"op": "context"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "hostdata", New: func() vh.Subject { return &dataSubj{} }, Gen: genData, Quick: 1000, Thorough: 8000})
}
