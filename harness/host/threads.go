package main

// #include "com.h"
import "C"
import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/vh"
)

// worker is a plugin that reads its parameters in each call and takes its time.
type worker struct {
	*proc
	slow bool
	rate float64
	on   bool
	segs []any
	odd  atomic.Int32 // something told it to change while it worked
	busy atomic.Int32
	at   int // the call in which the others begin, 0 for none
	mid  atomic.Bool
	nth  int
}

func (w *worker) Initialize(rate float64, max int32) error {
	if w.busy.Load() != 0 {
		w.odd.Store(1)
	}
	w.rate = rate
	return nil
}

func (w *worker) SetActive(a bool) error {
	if w.busy.Load() != 0 {
		w.odd.Store(1)
	}
	w.on = a
	return nil
}

func (w *worker) ProcessAudio(ctx *process.Context) {
	w.busy.Store(1)
	defer w.busy.Store(0)
	rate, on := ctx.SampleRate, w.on
	if w.nth++; w.nth == w.at {
		w.mid.Store(true)
		time.Sleep(300 * time.Microsecond)
	}
	vals := []int{}
	for _, id := range w.ids {
		vals = append(vals, exact64(w.params.Get(id).GetValue()))
		if w.slow {
			runtime.Gosched()
		}
	}
	if ctx.SampleRate != rate || w.rate != rate || w.on != on {
		w.odd.Store(1)
	}
	w.segs = append(w.segs, map[string]any{"len": ctx.NumSamples(), "rate": int(rate), "vals": vals})
	for i := range ctx.Output {
		copy(ctx.Output[i], ctx.Input[i])
	}
}

func exact64(v float64) int {
	if x := v * 64; x == math.Trunc(x) {
		return int(x)
	}
	return -777777
}

type threadSubj struct{}

func (threadSubj) Do(o vh.Op) any {
	w := &worker{proc: &proc{params: param.NewRegistry(), buses: bus.NewStereoConfiguration(), ids: []uint32{1, 2}}, slow: o.B("slow"), at: o.I("at")}
	start := o.IL("start")
	for i, id := range w.ids {
		w.params.Add(param.New(id, "p").Range(0, 64).Default(float64(start[i])).Build())
	}
	in := create(guid("threads"), w, w.proc)
	if in == nil {
		return "not created"
	}
	defer in.close()
	C.c_init(in.comp)
	C.p_setup(in.aud, C.double(start[3]), 16)
	C.c_active(in.comp, 1)
	C.p_processing(in.aud, C.int(start[2]))

	type rec struct {
		op       vh.Op
		th       int
		inv, ret int
		ok       bool
		r        []int
		segs     []any
	}
	threads := map[int][]*rec{}
	order := []*rec{}
	max := 0
	for _, c := range o.L("calls") {
		m := vh.Op(vh.ToOp(c))
		x := &rec{op: m, th: m.I("th"), r: []int{}, segs: []any{}}
		if m["last"] == true {
			continue // of an earlier execution
		}
		threads[x.th] = append(threads[x.th], x)
		order = append(order, x)
		if x.th > max {
			max = x.th
		}
	}
	call := func(x *rec) {
		a := x.op.IL("a")
		switch x.op.S("f") {
		case "block":
			m := &mem{}
			defer m.free()
			n := x.op.I("n")
			d := (*C.struct_Steinberg_Vst_ProcessData)(m.get(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
			d.numSamples, d.numInputs, d.numOutputs = C.int(n), 1, 1
			var ib, ob []unsafe.Pointer
			for c := 0; c < 2; c++ {
				ib, ob = append(ib, m.get(4*n)), append(ob, m.get(4*n))
				for i := range floats(ib[c], n) {
					floats(ib[c], n)[i] = float32(1 + i + 100*c)
				}
			}
			d.inputs, d.outputs = m.lanes(new([][]unsafe.Pointer), []int{2}, ib), m.lanes(new([][]unsafe.Pointer), []int{2}, ob)
			pts := x.op.L("pts")
			qs := C.h_changes(2)
			m.l = append(m.l, unsafe.Pointer(qs), unsafe.Pointer(qs.q))
			for k := 1; k <= 2; k++ {
				mine := [][]int{}
				for _, p := range pts {
					t := vh.ToList(p)
					if vh.ToInt(t[1]) == k {
						mine = append(mine, []int{vh.ToInt(t[0]), vh.ToInt(t[2])})
					}
				}
				q := C.h_queue(C.uint32_t(k), C.int(len(mine)))
				m.l = append(m.l, unsafe.Pointer(q), unsafe.Pointer(q.offs), unsafe.Pointer(q.vals), unsafe.Pointer(q.bad))
				for j, p := range mine {
					unsafe.Slice(q.offs, len(mine))[j] = C.int32_t(p[0])
					unsafe.Slice(q.vals, len(mine))[j] = C.double(float64(p[1]) / 64)
				}
				unsafe.Slice(qs.q, 2)[k-1] = q
			}
			d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(unsafe.Pointer(qs))
			w.segs = []any{}
			x.ok = C.p_process(in.aud, d) == 0
			x.segs = w.segs
			for c := 0; c < 2; c++ {
				for i := 0; i < n && len(w.segs) > 0; i++ {
					x.ok = x.ok && floats(ob[c], n)[i] == float32(1+i+100*c)
				}
			}
		case "set":
			x.ok = C.e_set(in.ctl, C.uint32_t(a[0]), C.double(float64(a[1])/64)) == 0
		case "get":
			x.r = []int{exact64(float64(C.e_get(in.ctl, C.uint32_t(a[0]))))}
			x.ok = true
		case "text":
			var s [128]C.int16_t
			x.ok = C.e_text(in.ctl, C.uint32_t(a[0]), C.double(float64(a[1])/64), &s[0]) == 0 && s[0] != 0
		case "info":
			var i C.struct_Steinberg_Vst_ParameterInfo
			x.ok = C.e_info(in.ctl, C.int(a[0]-1), &i) == 0 && int(i.id) == a[0]
		case "save":
			s := C.h_stream()
			defer freeStream(s)
			s.seekable = 1
			x.ok = C.c_getstate(in.comp, s) == 0
			b := content(s)
			x.ok = x.ok && len(b) == 42
			x.r = []int{-1, -1}
			for k := 0; k < 2 && x.ok; k++ {
				e := b[14+12*k:]
				x.ok = binary.LittleEndian.Uint32(e) == uint32(k+1)
				x.r[k] = exact64(math.Float64frombits(binary.LittleEndian.Uint64(e[4:])))
			}
		case "load":
			var b bytes.Buffer
			b.WriteString("VST3GO")
			binary.Write(&b, binary.LittleEndian, uint32(1))
			binary.Write(&b, binary.LittleEndian, int32(2))
			for k := 0; k < 2; k++ {
				binary.Write(&b, binary.LittleEndian, uint32(k+1))
				binary.Write(&b, binary.LittleEndian, float64(a[k])/64)
			}
			binary.Write(&b, binary.LittleEndian, uint32(0))
			s := C.h_stream()
			defer freeStream(s)
			s.seekable = 1
			fill(s, b.Bytes())
			x.ok = C.c_setstate(in.comp, s) == 0
		case "neighbour": // another instance comes, is used and goes
			q := &proc{params: param.NewRegistry(), buses: bus.NewStereoConfiguration(), ids: []uint32{1}}
			q.params.Add(param.New(1, "p").Range(0, 64).Default(float64(a[0])).Build())
			nb := create(guid("neighbour"), q, q)
			if nb == nil {
				return
			}
			C.c_init(nb.comp)
			x.r = []int{exact64(float64(C.e_get(nb.ctl, 1)))}
			x.ok = C.e_set(nb.ctl, 1, C.double(float64(a[1])/64)) == 0
			runtime.Gosched()
			x.r = append(x.r, exact64(float64(C.e_get(nb.ctl, 1))))
			nb.close()
		case "on":
			x.ok = C.p_processing(in.aud, C.int(a[0])) == 0
		case "rate":
			x.ok = C.p_setup(in.aud, C.double(a[0]), 16) == 0
		case "active":
			x.ok = C.c_active(in.comp, C.int(a[0])) == 0
		default:
			panic("harness: " + x.op.S("f"))
		}
	}
	var clock atomic.Int64
	var ready, done sync.WaitGroup
	var gate atomic.Bool
	for t := 1; t <= max; t++ {
		ready.Add(1)
		done.Add(1)
		go func(l []*rec, seed int) {
			defer done.Done()
			ready.Done()
			if len(l) > 0 && l[0].th == 1 {
				defer w.mid.Store(true)
			} else if w.at > 0 {
				for !w.mid.Load() {
					runtime.Gosched()
				}
			}
			for !gate.Load() {
			}
			for i, x := range l {
				for k := (seed >> uint(i)) & 3; k > 0; k-- {
					runtime.Gosched()
				}
				x.inv = int(clock.Add(1))
				call(x)
				x.ret = int(clock.Add(1))
			}
		}(threads[t], o.I("seed")*(t+7))
	}
	ready.Wait()
	gate.Store(true)
	done.Wait()
	for k := 1; k <= 2; k++ {
		x := &rec{op: vh.Op{"f": "get", "a": []int{k}}, r: []int{}, segs: []any{}}
		x.inv = int(clock.Add(1))
		call(x)
		x.ret = int(clock.Add(1))
		order = append(order, x)
	}
	calls := []any{}
	for i, x := range order {
		m := map[string]any{"th": x.th, "f": x.op["f"], "a": x.op["a"], "inv": x.inv, "ret": x.ret, "ok": x.ok && w.odd.Load() == 0, "r": x.r, "segs": x.segs}
		if i >= len(order)-2 {
			m["last"] = true
		}
		for _, k := range []string{"n", "pts"} {
			if v, ok := x.op[k]; ok {
				m[k] = v
			}
		}
		calls = append(calls, m)
	}
	o["calls"] = calls
	return []int{len(calls)}
}

func genThreads(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	for len(ops) < 6 {
		calls := []any{}
		for b := 1 + r.Intn(2); b > 0; b-- {
			pts := []any{}
			n := 8
			seen := map[int]bool{}
			for k := r.Intn(3) + r.Intn(2); k > 0; k-- {
				off, x := []int{0, 2, 4, 8}[r.Intn(4)], 1+r.Intn(2)
				if !seen[10*off+x] {
					seen[10*off+x] = true
					pts = append(pts, []int{off, x, r.Intn(65)})
				}
			}
			for a := range pts {
				for b := a + 1; b < len(pts); b++ {
					if pts[a].([]int)[0] > pts[b].([]int)[0] {
						pts[a], pts[b] = pts[b], pts[a]
					}
				}
			}
			calls = append(calls, map[string]any{"th": 1, "f": "block", "n": n, "pts": pts, "a": []int{}})
		}
		for th := 2; th <= 2+r.Intn(2); th++ {
			for k := 1 + r.Intn(3); k > 0; k-- {
				c := map[string]any{"th": th}
				w := r.Intn(13)
				if th == 3 {
					w = 5 + r.Intn(8)
				}
				switch {
				case w < 3:
					c["f"], c["a"] = "set", []int{1 + r.Intn(2), r.Intn(65)}
				case w < 5:
					c["f"], c["a"] = "get", []int{1 + r.Intn(2)}
				case w < 7:
					c["f"], c["a"] = "save", []int{}
				case w == 7:
					c["f"], c["a"] = "load", []int{r.Intn(65), r.Intn(65)}
				case w == 8:
					c["f"], c["a"] = "on", []int{r.Intn(2)}
				case w == 9:
					c["f"], c["a"] = "rate", []int{[]int{8000, 16000}[r.Intn(2)]}
				case w == 10:
					c["f"], c["a"] = []string{"text", "info"}[r.Intn(2)], []int{1 + r.Intn(2), r.Intn(65)}
				case w == 11:
					c["f"], c["a"] = "neighbour", []int{r.Intn(65), r.Intn(65)}
				default:
					c["f"], c["a"] = "active", []int{r.Intn(2)}
				}
				calls = append(calls, c)
			}
		}
		ops = append(ops, vh.Op{"op": "round", "calls": calls, "start": []int{r.Intn(65), r.Intn(65), b2i(r.Intn(5) > 0), 48000, 0},
			"slow": r.Intn(2) == 0, "at": max(0, r.Intn(6)-2), "seed": r.Intn(1 << 16)})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "threads", New: func() vh.Subject { return threadSubj{} }, Gen: genThreads, Quick: 300, Thorough: 6000})
}
