package main

// #include "com.h"
import "C"
import (
	"slices"
	"math/rand"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

type blockSubj struct{ *inst }

// mem is what one block borrows from the C side.
type mem struct{ l []unsafe.Pointer }

func (m *mem) get(n int) unsafe.Pointer {
	p := C.calloc(C.size_t(n+1), 1)
	m.l = append(m.l, p)
	return p
}
func (m *mem) free() {
	for _, p := range m.l {
		C.free(p)
	}
}

func floats(p unsafe.Pointer, n int) []float32 { return unsafe.Slice((*float32)(p), n) }

// lanes lays out the channels of buses; a nil entry of bufs stands for a channel the host does not connect.
// Lists that begin like one in known are that one.
func (m *mem) lanes(known *[][]unsafe.Pointer, counts []int, bufs []unsafe.Pointer) *C.struct_Steinberg_Vst_AudioBusBuffers {
	if len(counts) == 0 {
		return nil
	}
	a := (*C.struct_Steinberg_Vst_AudioBusBuffers)(m.get(len(counts) * int(unsafe.Sizeof(C.struct_Steinberg_Vst_AudioBusBuffers{}))))
	k := 0
	for i, n := range counts {
		want := bufs[k : k+n]
		k += n
		var ch unsafe.Pointer
	next:
		for q, l := range *known {
			if min(n, len(l)) == 0 || n > cap(l) {
				continue
			}
			for j := 0; j < min(n, len(l)); j++ {
				if l[j] != want[j] {
					continue next
				}
			}
			if len(l) < n { // the longer one is the list of both
				l = l[:n]
				copy(l, want)
				(*known)[q] = l
			}
			ch = unsafe.Pointer(&l[0])
		}
		if ch == nil {
			ch = m.get(8 * (n + 4))
			s := unsafe.Slice((*unsafe.Pointer)(ch), n+4)[:n]
			copy(s, want)
			*known = append(*known, s)
		}
		C.h_bus(a, C.int(i), C.int(n), (**C.float)(ch))
	}
	return a
}

func (s *blockSubj) Close() { s.inst.close() }

func (s *blockSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "create":
		p := &proc{params: param.NewRegistry(), buses: bus.NewStereoConfiguration(), clear: o.B("clear"), latency: int32(o.I("latency")), tail: int32(o.I("tail"))}
		for _, id := range o.IL("ids") {
			p.params.Add(param.New(uint32(id), "p").Range(0, 64).Default(float64(id % 64)).Build())
			p.ids = append(p.ids, uint32(id))
		}
		s.inst = create(guid("block"), p, p)
		if s.inst == nil {
			return "not created"
		}
		return []int{int(C.c_init(s.comp)), int(int32(C.p_latency(s.aud))), int(int32(C.p_tail(s.aud))), int(C.p_size(s.aud, 0)), int(C.p_size(s.aud, 1))}
	case "setup":
		r := int(C.p_setup(s.aud, C.double(o.I("rate")), C.int(o.I("max"))))
		return []int{r, s.p.inits[len(s.p.inits)-1][0], s.p.inits[len(s.p.inits)-1][1]}
	case "active":
		r := int(C.c_active(s.comp, C.int(b2i(o.B("on")))))
		return []int{r, s.p.active[len(s.p.active)-1]}
	case "processing":
		return []int{int(C.p_processing(s.aud, C.int(b2i(o.B("on")))))}
	case "value":
		id := C.uint32_t(o.I("id"))
		r := int(64 * float64(C.e_get(s.ctl, id)))
		return []int{r}
	case "set":
		return []int{int(C.e_set(s.ctl, C.uint32_t(o.I("id")), C.double(float64(o.I("v"))/64)))}
	case "process":
		return s.process(o)
	}
	panic("harness: unknown op")
}

func (s *blockSubj) process(o vh.Op) any {
	m := &mem{}
	defer m.free()
	n := o.I("n")
	d := (*C.struct_Steinberg_Vst_ProcessData)(m.get(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	d.numSamples = C.int(n)
	var live []unsafe.Pointer
	var ibufs []unsafe.Pointer
	icounts := []int{}
	for _, b := range o.L("ins") {
		bl := vh.ToList(b)
		icounts = append(icounts, len(bl))
		for _, c := range bl {
			cl := vh.ToList(c)
			if len(cl) != n {
				ibufs = append(ibufs, nil) // not connected
				continue
			}
			p := m.get(4 * n)
			for i := range cl {
				floats(p, n)[i] = float32(vh.ToInt(cl[i]))
			}
			ibufs = append(ibufs, p)
			live = append(live, p)
		}
	}
	var obufs []unsafe.Pointer
	ocounts := []int{}
	k := 0
	for _, b := range o.L("outs") {
		bl := vh.ToList(b)
		ocounts = append(ocounts, len(bl))
		for _, c := range bl {
			if vh.ToInt(c) == 0 {
				obufs = append(obufs, nil)
				continue
			}
			p := m.get(4 * n)
			if o.B("inplace") && k < len(live) {
				p = live[k]
			} else {
				for i := range floats(p, n) {
					floats(p, n)[i] = -9
				}
			}
			k++
			obufs = append(obufs, p)
		}
	}
	d.numInputs, d.numOutputs = C.int(len(icounts)), C.int(len(ocounts))
	var il, ol [][]unsafe.Pointer
	d.inputs = m.lanes(&il, icounts, ibufs)
	if o.B("inplace") && n%2 == 1 { // a host may share the lists with the buffers
		ol = il
	}
	d.outputs = m.lanes(&ol, ocounts, obufs)
	if o.B("inplace") && n%4 == 3 && slices.Equal(icounts, ocounts) && slices.Equal(ibufs, obufs) {
		d.outputs = d.inputs
	}
	if ch := o.L("changes"); len(ch) > 0 {
		c := C.h_changes(C.int(len(ch)))
		m.l = append(m.l, unsafe.Pointer(c), unsafe.Pointer(c.q))
		qs := unsafe.Slice(c.q, len(ch))
		for i, x := range ch {
			q := vh.ToOp(x)
			pts := vh.ToList(q["pts"])
			if vh.ToInt(q["id"]) < 0 {
				continue // the host has no queue to give
			}
			qs[i] = C.h_queue(C.uint32_t(vh.ToInt(q["id"])), C.int(len(pts)))
			m.l = append(m.l, unsafe.Pointer(qs[i]), unsafe.Pointer(qs[i].offs), unsafe.Pointer(qs[i].vals), unsafe.Pointer(qs[i].bad))
			for j, y := range pts {
				t := vh.ToList(y)
				unsafe.Slice(qs[i].offs, len(pts))[j] = C.int32_t(vh.ToInt(t[0]))
				unsafe.Slice(qs[i].vals, len(pts))[j] = C.double(float64(vh.ToInt(t[1])) / 64)
				unsafe.Slice(qs[i].bad, len(pts))[j] = C.int(vh.ToInt(t[2]))
			}
		}
		d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(unsafe.Pointer(c))
	}
	if ev := o.L("events"); len(ev) > 0 {
		l := C.h_events(C.int(len(ev)))
		m.l = append(m.l, unsafe.Pointer(l), unsafe.Pointer(l.e), unsafe.Pointer(l.bad))
		es := unsafe.Slice(l.e, len(ev))
		for i, x := range ev {
			t := vh.ToList(x)
			k, off, ch, pitch, vel := vh.ToInt(t[0]), vh.ToInt(t[1]), vh.ToInt(t[2]), vh.ToInt(t[3]), vh.ToInt(t[4])
			es[i].sampleOffset = C.int(off)
			switch k {
			case 0:
				C.h_noteon(&es[i], C.int(ch), C.int(pitch), C.float(float32(vel)/127))
			case 1:
				C.h_noteoff(&es[i], C.int(ch), C.int(pitch), C.float(float32(vel)/127))
			case 2: // cannot be had
				unsafe.Slice(l.bad, len(ev))[i] = 1
			default:
				es[i]._type = 2 // raw data
			}
		}
		d.inputEvents = (*C.struct_Steinberg_Vst_IEventList)(unsafe.Pointer(l))
	}
	if t := o.IL("tr"); len(t) > 0 {
		c := (*C.struct_Steinberg_Vst_ProcessContext)(m.get(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
		for i, bit := range []uint{1, 3, 2, 10, 13, 9, 11, 12} {
			c.state |= C.Steinberg_uint32(t[i] << bit)
		}
		c.tempo, c.timeSigNumerator, c.timeSigDenominator = C.double(t[8]), C.int(t[9]), C.int(t[10])
		c.projectTimeMusic, c.barPositionMusic = C.double(t[11]), C.double(t[12])
		c.cycleStartMusic, c.cycleEndMusic = C.double(t[13]), C.double(t[14])
		c.projectTimeSamples, c.continousTimeSamples = C.Steinberg_int64(t[15]), C.Steinberg_int64(t[16])
		c.state |= C.Steinberg_uint32(t[17] << 15)
		c.samplesToNextClock = C.Steinberg_int32(t[18])
		d.processContext = c
	}
	s.p.calls, s.p.breaks = []map[string]any{}, o.I("breaks")
	r := int(C.p_process(s.aud, d))
	calls := []any{}
	for _, c := range s.p.calls {
		calls = append(calls, c)
	}
	out := [][]int{}
	for _, p := range obufs {
		if p != nil {
			out = append(out, ints(floats(p, n)))
		}
	}
	o["calls"], o["out"], o["after"] = calls, out, s.p.vals()
	return []int{r}
}

func blockOps(r *rand.Rand, ids []int, n int) vh.Op {
	ins := []any{}
	x := 1
	for b := r.Intn(4); b > 0; b-- {
		chans := []any{}
		for c := r.Intn(4) + r.Intn(2)*r.Intn(18); c > 0; c-- {
			if r.Intn(8) == 0 && n > 0 {
				chans = append(chans, []int{}) // not connected
				continue
			}
			ch := make([]int, n)
			for i := range ch {
				ch[i] = x
				x++
			}
			x += r.Intn(3)
			chans = append(chans, ch)
		}
		ins = append(ins, chans)
	}
	outs := []any{}
	for b := r.Intn(4); b > 0; b-- {
		chans := []int{}
		for c := r.Intn(4) + r.Intn(2)*r.Intn(18); c > 0; c-- {
			chans = append(chans, b2i(r.Intn(8) > 0))
		}
		outs = append(outs, chans)
	}
	if r.Intn(3) > 0 { // the usual case
		mk := func() []int {
			ch := make([]int, n)
			for i := range ch {
				ch[i] = x
				x++
			}
			return ch
		}
		ins, outs = []any{[]any{mk(), mk()}}, []any{[]int{1, 1}}
	}
	changes := []any{}
	for k := r.Intn(4) * r.Intn(2); k > 0; k-- {
		pts := []any{}
		off := 0
		for j := r.Intn(4); j > 0; j-- {
			off += r.Intn(n + 1)
			bad := 0
			if r.Intn(9) == 0 {
				bad = 1
			}
			pts = append(pts, []int{off, r.Intn(72) - 4, bad})
		}
		id := r.Intn(len(ids)*3 + 2)
		if r.Intn(10) == 0 {
			id = -1
		}
		changes = append(changes, map[string]any{"id": id, "pts": pts})
	}
	events := []any{}
	for k := r.Intn(5) * r.Intn(2); k > 0 && n > 0; k-- {
		kind := r.Intn(2)
		if r.Intn(8) == 0 {
			kind = 2 + r.Intn(2)
		}
		events = append(events, []int{kind, r.Intn(n), r.Intn(16), r.Intn(128), r.Intn(128)})
	}
	tr := []int{}
	if r.Intn(2) == 0 {
		for i := 0; i < 8; i++ {
			tr = append(tr, r.Intn(2))
		}
		for i := 0; i < 9; i++ {
			tr = append(tr, r.Intn(1000)+1)
		}
		tr = append(tr, r.Intn(2), r.Intn(2000)-999)
	}
	breaks := 0
	if r.Intn(8) == 0 {
		breaks = 1 + r.Intn(3)
	}
	return vh.Op{"op": "process", "breaks": breaks, "n": n, "ins": ins, "outs": outs, "inplace": r.Intn(4) == 0, "changes": changes, "events": events, "tr": tr}
}

func genBlock(r *rand.Rand, i int, tier string) []vh.Op {
	ids := []int{}
	for k := r.Intn(5); k >= 0; k-- {
		ids = append(ids, 3*len(ids))
	}
	ops := []vh.Op{{"op": "create", "ids": ids, "clear": r.Intn(2) == 0, "latency": r.Intn(1000), "tail": r.Intn(1000)}}
	max := 4 + r.Intn(20)
	setup := func() vh.Op {
		op := vh.Op{"op": "setup", "rate": 8000 + r.Intn(90000), "max": max}
		if r.Intn(6) == 0 && len(ops) > 3 {
			op["max"] = 0 // keeps what was
		} else if r.Intn(3) == 0 {
			max = 4 + r.Intn(20)
			op["max"] = max
		}
		return op
	}
	ops = append(ops, setup(), vh.Op{"op": "active", "on": true})
	if r.Intn(5) > 0 {
		ops = append(ops, vh.Op{"op": "processing", "on": true})
	}
	for len(ops) < 14 {
		switch r.Intn(14) {
		case 0:
			ops = append(ops, vh.Op{"op": "processing", "on": r.Intn(3) > 0})
		case 1:
			ops = append(ops, vh.Op{"op": "active", "on": r.Intn(2) == 0})
		case 2:
			if r.Intn(3) == 0 {
				ops = append(ops, setup(), vh.Op{"op": "processing", "on": true})
			}
		case 3:
			ops = append(ops, vh.Op{"op": "value", "id": r.Intn(3*len(ids) + 1)})
		case 4:
			ops = append(ops, vh.Op{"op": "set", "id": r.Intn(3*len(ids) + 1), "v": r.Intn(72) - 4})
		default:
			n := r.Intn(max + 1)
			if r.Intn(3) == 0 {
				n = r.Intn(4)
				if n > max {
					n = max
				}
			}
			ops = append(ops, blockOps(r, ids, n))
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "block", New: func() vh.Subject { return &blockSubj{} }, Gen: genBlock, Quick: 800, Thorough: 6000})
}
