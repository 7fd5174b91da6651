package main

// #include "com.h"
import "C"
import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
	"runtime"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/pkg/vst3"
	"verif/vh"
)

// ---------------------------------------------------------------- typed access

type streamSubj struct {
	s *C.HStream
	w *vst3.StreamWrapper
	d bool // after a failure
}

func freeStream(s *C.HStream) {
	if s != nil {
		C.free(unsafe.Pointer(s.data))
		C.free(unsafe.Pointer(s))
	}
}

func (t *streamSubj) Close() { freeStream(t.s) }

func fill(s *C.HStream, b []byte) {
	s.data = (*C.uchar)(C.realloc(unsafe.Pointer(s.data), C.size_t(len(b)+1)))
	s.cap = C.int64_t(len(b) + 1)
	copy(unsafe.Slice((*byte)(unsafe.Pointer(s.data)), len(b)), b)
	s.len = C.int64_t(len(b))
}

func content(s *C.HStream) []byte {
	return append([]byte{}, unsafe.Slice((*byte)(unsafe.Pointer(s.data)), int(s.len))...)
}

func bytesOf(v any) []byte {
	b := []byte{}
	for _, x := range vh.ToList(v) {
		b = append(b, byte(vh.ToInt(x)))
	}
	return b
}

func byteInts(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

func conf(s *C.HStream, o vh.Op) {
	s.seekable, s.piece = C.int(o.I("seek")), C.int(o.I("piece"))
	s.readfail, s.writefail, s.stall = C.int(o.I("rfail")), C.int(o.I("wfail")), C.int(o.I("stall"))
}

func (t *streamSubj) Do(o vh.Op) any {
	if o.S("op") == "open" {
		freeStream(t.s)
		t.s, t.d = C.h_stream(), false
		fill(t.s, bytesOf(o["data"]))
		t.s.pos = C.int64_t(o.I("pos"))
		conf(t.s, o)
		t.w = vst3.NewStreamWrapper(unsafe.Pointer(t.s))
		return []int{}
	}
	if t.d {
		o["broke"] = false
		return []int{9}
	}
	t.s.broke = 0
	ok := func(err error, r ...any) any {
		o["broke"] = t.s.broke != 0
		if err != nil {
			t.d = true
			return []int{1}
		}
		return append([]any{0}, r...)
	}
	switch o.S("op") {
	case "write":
		n, err := t.w.Write(bytesOf(o["data"]))
		return ok(err, int(n))
	case "wint":
		return ok(t.w.WriteInt32(int32(o.I("v"))), 4)
	case "wfloat":
		return ok(t.w.WriteFloat64(math.Float64frombits(binary.LittleEndian.Uint64(bytesOf(o["data"])))), 8)
	case "wstr":
		b := bytesOf(o["data"])
		return ok(t.w.WriteString(string(b)), 4+len(b))
	case "read":
		b := make([]byte, o.I("n"))
		n, err := t.w.Read(b)
		o["got"] = []int{}
		if err == nil {
			o["got"] = byteInts(b[:n])
		}
		return ok(err, int(n))
	case "rint":
		v, err := t.w.ReadInt32()
		return ok(err, int(v))
	case "rfloat":
		v, err := t.w.ReadFloat64()
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
		return ok(err, byteInts(b[:]))
	case "rstr":
		v, err := t.w.ReadString()
		o["got"] = byteInts([]byte(v))
		return ok(err)
	case "all":
		v, err := t.w.ReadAll()
		o["got"] = byteInts(v)
		return ok(err)
	case "dump":
		return []any{byteInts(content(t.s)), int(t.s.pos)}
	}
	panic("harness: unknown op")
}

func data(r *rand.Rand, n int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = r.Intn(256)
	}
	return b
}

func float(r *rand.Rand) []int {
	f := data(r, 8)
	f[7] &= 0xBF // a number
	return f
}

func le(v int) []int { return []int{v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255} }

func genStream(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	open := func() {
		b := []int{}
		for k := r.Intn(6); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				b = append(b, data(r, 4)...)
			case 1:
				b = append(b, float(r)...)
			case 2:
				n := r.Intn(20)
				b = append(append(b, le(n)...), data(r, n)...)
			case 3:
				b = append(b, le([]int{-1, -2147483648, 300, 0, 5}[r.Intn(5)])...)
			default:
				b = append(b, data(r, r.Intn(9))...)
			}
		}
		if r.Intn(25) == 0 {
			b = append(b, data(r, 4090+r.Intn(12))...)
			if r.Intn(2) == 0 {
				b = b[max(0, len(b)-4096):]
			}
		}
		pos := 0
		if r.Intn(3) == 0 {
			pos = r.Intn(len(b) + 1)
		}
		o := vh.Op{"op": "open", "data": b, "pos": pos, "piece": 0, "seek": 3, "rfail": 0, "wfail": 0, "stall": 0}
		if r.Intn(2) == 0 {
			o["piece"] = 1 + r.Intn(9)
		}
		if r.Intn(3) == 0 {
			o["seek"] = r.Intn(4)
		}
		if r.Intn(4) == 0 {
			o[[]string{"rfail", "wfail", "stall"}[r.Intn(3)]] = 1 + r.Intn(9)
		}
		if len(b) > 1000 && r.Intn(3) > 0 {
			o["piece"] = 0
		}
		ops = append(ops, o)
	}
	open()
	for len(ops) < 14 {
		switch r.Intn(12) {
		case 0:
			open()
		case 1:
			ops = append(ops, vh.Op{"op": "write", "data": data(r, r.Intn(20))})
		case 2:
			ops = append(ops, vh.Op{"op": "wint", "v": int(int32(r.Uint32()))})
		case 3:
			ops = append(ops, vh.Op{"op": "wfloat", "data": float(r)})
		case 4:
			ops = append(ops, vh.Op{"op": "wstr", "data": data(r, r.Intn(20))})
		case 5:
			ops = append(ops, vh.Op{"op": "read", "n": r.Intn(20)})
		case 6:
			ops = append(ops, vh.Op{"op": "rint"})
		case 7:
			ops = append(ops, vh.Op{"op": "rfloat"})
		case 8, 9:
			ops = append(ops, vh.Op{"op": "rstr"})
		case 10:
			ops = append(ops, vh.Op{"op": "all"})
		default:
			ops = append(ops, vh.Op{"op": "dump"})
		}
	}
	return ops
}

// ---------------------------------------------------------------- saving and restoring

type persistSubj struct {
	in    [3]*inst
	shelf [][]byte
}

func (t *persistSubj) Close() {
	for _, i := range t.in {
		i.close()
	}
}

func (t *persistSubj) Do(o vh.Op) any {
	var in *inst
	if o["p"] != nil {
		in = t.in[o.I("p")]
	}
	switch o.S("op") {
	case "new":
		for i, x := range o.L("insts") {
			q := vh.ToOp(x)
			p := &proc{params: param.NewRegistry(), buses: bus.NewStereoConfiguration(), custom: []byte{}}
			for _, id := range q.IL("ids") {
				p.params.Add(param.New(uint32(id), "p").Range(0, 64).Build())
				p.ids = append(p.ids, uint32(id))
			}
			var pr plugin.Processor = p
			if q.B("keeps") {
				pr = keeper{p}
			}
			if t.in[i+1] = create(guid("persist"), pr, p); t.in[i+1] == nil {
				return "not created"
			}
		}
		return []int{1}
	case "set":
		return []int{int(C.e_set(in.ctl, C.uint32_t(o.I("id")), C.double(float64(o.I("v"))/64)))}
	case "custom":
		in.p.custom = bytesOf(o["data"])
		return []int{}
	case "get":
		return t.get(in)
	case "save":
		s := C.h_stream()
		defer freeStream(s)
		lead := o.I("lead")
		fill(s, make([]byte, lead))
		s.pos = C.int64_t(lead)
		conf(s, o)
		in.p.saveFail = o.B("fail")
		var r int
		if o.I("face") == 0 {
			r = int(C.c_getstate(in.comp, s))
		} else {
			r = int(C.e_getstate(in.ctl, s))
		}
		b := content(s)
		o["len"], o["broke"] = len(b)-lead, s.broke != 0
		if r == 0 {
			t.shelf = append(t.shelf, b[lead:])
		}
		return []int{r}
	case "load":
		o["broke"] = false
		if o.I("i") > len(t.shelf) {
			return []int{2}
		}
		b := t.shelf[o.I("i")-1]
		if o.I("cut") > len(b) {
			o["cut"] = len(b)
		}
		s := C.h_stream()
		defer freeStream(s)
		lead := make([]byte, o.I("lead"))
		fill(s, append(lead, b[:len(b)-o.I("cut")]...))
		s.pos = C.int64_t(len(lead))
		conf(s, o)
		in.p.loadFail = o.B("fail")
		var r int
		switch o.I("face") {
		case 0:
			r = int(C.c_setstate(in.comp, s))
		case 1:
			r = int(C.e_setstate(in.ctl, s))
		default:
			r = int(C.e_compstate(in.ctl, s))
		}
		o["broke"] = s.broke != 0
		return []int{r}
	case "live":
		switch o.S("what") {
		case "setup":
			return []int{int(C.p_setup(in.aud, C.double(o.I("rate")), C.int(o.I("n"))))}
		case "active":
			return []int{int(C.c_active(in.comp, C.int(o.I("n"))))}
		}
		return []int{int(C.p_processing(in.aud, C.int(o.I("n"))))}
	case "big":
		was := in.p.custom
		in.p.custom, in.p.saveFail, in.p.loadFail = pattern(o.I("n")), false, false
		s := C.h_stream()
		defer freeStream(s)
		conf(s, o)
		save := int(C.c_getstate(in.comp, s))
		in.p.custom = []byte{}
		s.pos = 0
		load := int(C.c_setstate(in.comp, s))
		got := in.p.custom
		in.p.custom = was
		return []any{save, load, len(got), bytes.Equal(got, pattern(len(got)))}
	case "hurt":
		o["kb"], o["r"], o["got"] = 0, 0, []int{}
		if o.I("i") > len(t.shelf) {
			return []int{2}
		}
		b := append([]byte{}, t.shelf[o.I("i")-1]...)
		at, seen := []int{}, map[int]bool{}
		for i, k := range o.IL("at") {
			if k = (k-1)%len(b) + 1; !seen[k] {
				seen[k], at = true, append(at, k)
				b[k-1] ^= byte(o.IL("by")[i])
			}
		}
		o["at"] = at
		s := C.h_stream()
		defer freeStream(s)
		fill(s, b)
		s.pos = 0
		in.p.loadFail = false
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		r := int(C.c_setstate(in.comp, s))
		runtime.ReadMemStats(&z)
		o["kb"], o["r"], o["got"] = int((z.TotalAlloc-a.TotalAlloc)>>10), r, t.get(in)
		return []int{r}
	}
	panic("harness: unknown op")
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i ^ i>>8 ^ i>>16)
	}
	return b
}

// get is what an instance holds, in 1/64, and NaN as -1.
func (t *persistSubj) get(in *inst) any {
	v := []int{}
	for _, id := range in.p.ids {
		x := float64(C.e_get(in.ctl, C.uint32_t(id)))
		if !(x >= 0 && x <= 1) {
			v = append(v, -1)
		} else {
			v = append(v, int(64*x))
		}
	}
	return []any{v, byteInts(in.p.custom)}
}

func genPersist(r *rand.Rand, i int, tier string) []vh.Op {
	insts := []any{}
	for p := 0; p < 2; p++ {
		ids := []int{}
		for _, id := range r.Perm(6)[:r.Intn(6)] {
			ids = append(ids, id)
		}
		insts = append(insts, map[string]any{"ids": ids, "keeps": r.Intn(3) > 0})
	}
	if r.Intn(2) == 0 {
		insts[1] = insts[0]
	}
	ops := []vh.Op{{"op": "new", "insts": insts}}
	modes := func(o vh.Op) vh.Op {
		o["lead"], o["seek"], o["piece"], o["rfail"], o["wfail"], o["stall"] = 0, 3, 0, 0, 0, 0
		if r.Intn(3) == 0 {
			o["lead"] = r.Intn(9)
		}
		if r.Intn(3) == 0 {
			o["seek"] = r.Intn(4)
		}
		if r.Intn(2) == 0 {
			o["piece"] = 1 + r.Intn(40)
		}
		if r.Intn(5) == 0 {
			o[[]string{"rfail", "wfail", "stall"}[r.Intn(3)]] = 1 + r.Intn(6)
		}
		return o
	}
	saves, lives := 0, r.Intn(2) == 0
	for len(ops) < 18 {
		p := 1 + r.Intn(2)
		if lives && r.Intn(4) == 0 {
			o := vh.Op{"op": "live", "p": p, "what": "setup", "rate": []int{8000, 44100, 48000, 192000}[r.Intn(4)], "n": 1 + r.Intn(1000)}
			if r.Intn(3) > 0 {
				o["what"], o["n"] = []string{"active", "processing"}[r.Intn(2)], min(1, r.Intn(3))
			}
			ops = append(ops, o)
			continue
		}
		switch k := r.Intn(8); {
		case k < 2:
			ops = append(ops, vh.Op{"op": "set", "p": p, "id": r.Intn(6), "v": r.Intn(72) - 4})
		case k < 3:
			n := r.Intn(8)
			if r.Intn(20) == 0 {
				n = 4060 + r.Intn(60)
			}
			ops = append(ops, vh.Op{"op": "custom", "p": p, "data": data(r, n)})
		case k < 5:
			saves++
			ops = append(ops, modes(vh.Op{"op": "save", "p": p, "face": r.Intn(2), "fail": r.Intn(8) == 0}))
		case k < 7 && saves > 0:
			cut := 0
			if r.Intn(5) == 0 {
				cut = r.Intn(40)
			}
			o := modes(vh.Op{"op": "load", "p": p, "face": r.Intn(3), "i": 1 + r.Intn(saves), "cut": cut, "fail": r.Intn(8) == 0})
			o["stall"] = 0
			ops = append(ops, o, vh.Op{"op": "get", "p": p})
		case saves > 0 && r.Intn(2) == 0:
			at, by := []any{}, []int{}
			for n := 1 + r.Intn(3); len(at) < n; {
				k := 1 + r.Intn(18) // the head, with the version and the number of parameters
				if r.Intn(2) == 0 {
					k = 1 + r.Intn(100)
				}
				at, by = append(at, k), append(by, []int{1, 128, 255, 64, 1 + r.Intn(255)}[r.Intn(5)])
			}
			ops = append(ops, vh.Op{"op": "hurt", "p": p, "i": 1 + r.Intn(saves), "at": at, "by": by}, vh.Op{"op": "get", "p": p})
		case r.Intn(4) == 0:
			o := modes(vh.Op{"op": "big", "p": p, "n": max(0, 1<<(9+r.Intn(11))+r.Intn(200)-100)})
			o["rfail"], o["wfail"], o["stall"], o["lead"], o["piece"] = 0, 0, 0, 0, o.I("piece")*500
			ops = append(ops, o)
		default:
			ops = append(ops, vh.Op{"op": "get", "p": p})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "stream", New: func() vh.Subject { return &streamSubj{} }, Gen: genStream, Quick: 800, Thorough: 12000})
	vh.Register(&vh.Domain{Name: "persist", New: func() vh.Subject { return &persistSubj{} }, Gen: genPersist, Quick: 400, Thorough: 6000})
}
