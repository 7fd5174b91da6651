package main

// #include "com.h"
import "C"
import (
	"io"
	"math/rand"
	"os"
	"testing"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/vh"
)

// quiet is a plugin that keeps the rule: it does its work and allocates nothing.
type quiet struct {
	params *param.Registry
	buses  *bus.Configuration
	ids    []uint32
	n      int
	sum    float64
	do     string
}

func (q *quiet) Initialize(rate float64, max int32) error { return nil }
func (q *quiet) GetParameters() *param.Registry           { return q.params }
func (q *quiet) GetBuses() *bus.Configuration             { return q.buses }
func (q *quiet) SetActive(a bool) error                   { return nil }
func (q *quiet) GetLatencySamples() int32                 { return 0 }
func (q *quiet) GetTailSamples() int32                    { return 0 }

var (
	quietCh  = func(ch int, in, out []float32) { copy(out, in) }
	quietOne = func(in, out []float32) { copy(out, in) }
	quietSmp = func(i int, in, out []float32) { copy(out, in) }
	quietFns = []func(in, out []float32){quietOne, quietOne, quietOne}
)

func (q *quiet) ProcessAudio(ctx *process.Context) {
	q.n += ctx.NumSamples()
	for _, id := range q.ids {
		q.sum += ctx.Param(id) + ctx.ParamPlain(id)
	}
	w, t := ctx.WorkBuffer(), ctx.TempBuffer()
	for i := range w {
		w[i], t[i] = 1, 2
	}
	q.sum += float64(ctx.NumInputChannels()+ctx.NumOutputChannels()+ctx.GetNumChannels()+ctx.GetNumStereoChannels()) + float64(len(ctx.GetParameterChanges()))
	switch q.do {
	case "pass":
		ctx.PassThrough()
	case "copy":
		ctx.CopyInputToOutput()
	case "clear":
		ctx.Clear()
	case "channels":
		ctx.ProcessChannels(quietCh)
	case "stereo":
		ctx.ProcessStereo(quietCh)
	case "mono":
		ctx.ProcessMono(quietOne)
	case "samples":
		ctx.ProcessSamples(quietSmp)
	case "separately":
		ctx.ProcessChannelsSeparately(quietFns...)
	case "setat":
		for _, id := range q.ids {
			ctx.SetParameterAtOffset(id, 0.5, 0)
		}
	case "music":
		b, x := ctx.Transport.GetBarsBeats()
		q.sum += float64(b) + x + ctx.Transport.GetSamplesPerBeat(ctx.SampleRate) + ctx.Transport.GetBeatPosition() + float64(b2i(ctx.Transport.IsOnBeat(0.1)))
	case "events":
		if ctx.HasInputEvents() {
			q.n += 100000
		}
		q.sum += float64(len(ctx.GetAllInputEvents()))
		ctx.ClearInputEvents()
		ctx.ClearOutputEvents()
		ctx.ClearAllEvents()
	}
}

type realSubj struct {
	q   *quiet
	in  *inst
	ctx *process.Context
	m   *mem
}

func (s *realSubj) Close() {
	s.in.close()
	if s.m != nil {
		s.m.free()
	}
}

// printed tells whether f writes to the standard output, which the host may not even have.
func printed(f func()) int {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Stdout = w
	done := make(chan int)
	go func() {
		b, _ := io.ReadAll(r)
		done <- len(b)
	}()
	f()
	os.Stdout = old
	w.Close()
	n := <-done
	r.Close()
	return b2i(n > 0)
}

const again = 4

func (s *realSubj) measure(f func()) any {
	s.q.n = 0
	p := printed(f)
	one := s.q.n
	// What the runtime allocates meanwhile is counted too, but not every time.
	a := 1 << 20
	for try := 0; try < 8 && a > 0; try++ {
		s.q.n = 0
		a = min(a, int(testing.AllocsPerRun(again, f)))
		if s.q.n != one*(again+1) {
			one = -1 // not the same every time
		}
	}
	return []int{a, p, one}
}

func (s *realSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		s.Close()
		s.m = nil
		q := &quiet{params: param.NewRegistry(), buses: bus.NewStereoConfiguration()}
		for _, id := range o.IL("ids") {
			q.params.Add(param.New(uint32(id), "p").Range(0, 64).Build())
			q.ids = append(q.ids, uint32(id))
		}
		s.q = q
		s.in = create(guid("quiet"), q, nil)
		C.c_init(s.in.comp)
		C.p_setup(s.in.aud, 48000, C.int(o.I("max")))
		C.c_active(s.in.comp, 1)
		s.ctx = process.NewContext(o.I("max"), q.params)
		return []int{}
	case "processing":
		return []int{int(C.p_processing(s.in.aud, C.int(b2i(o.B("on")))))}
	case "context":
		type pt struct {
			id  uint32
			v   float64
			off int
		}
		type block struct {
			in, out [][]float32
			pts     []pt
			do      string
		}
		bs := []block{}
		for _, y := range o.L("bs") {
			x := vh.ToOp(y)
			b := block{do: x.S("do")}
			for c := x.I("ins"); c > 0; c-- {
				b.in = append(b.in, make([]float32, x.I("n")))
			}
			for c := x.I("outs"); c > 0; c-- {
				b.out = append(b.out, make([]float32, x.I("n")))
			}
			for _, z := range x.L("pts") {
				t := vh.ToList(z)
				b.pts = append(b.pts, pt{uint32(vh.ToInt(t[0])), float64(vh.ToInt(t[2])) / 64, vh.ToInt(t[1])})
			}
			bs = append(bs, b)
		}
		return s.measure(func() {
			for i := range bs {
				b := &bs[i]
				s.ctx.Input, s.ctx.Output, s.q.do = b.in, b.out, b.do
				s.ctx.ResetParameterChanges()
				for _, p := range b.pts {
					s.ctx.AddParameterChange(p.id, p.v, p.off)
				}
				if s.ctx.HasParameterChanges() {
					s.ctx.SortParameterChanges()
				}
				for _, ch := range s.ctx.GetParameterChanges() {
					s.ctx.ApplyParameterChange(ch)
				}
				s.q.ProcessAudio(s.ctx)
			}
		})
	case "block":
		if s.m != nil {
			s.m.free()
		}
		s.m = &mem{}
		ds, dos := []*C.struct_Steinberg_Vst_ProcessData{}, []string{}
		for _, y := range o.L("bs") {
			x := vh.ToOp(y)
			ds, dos = append(ds, s.data(x)), append(dos, x.S("do"))
		}
		return s.measure(func() {
			for i, d := range ds {
				s.q.do = dos[i]
				C.p_process(s.in.aud, d)
			}
		})
	}
	panic("harness: unknown op")
}

// data is a block as the host hands it over; a side without a bus has none, not an empty one.
func (s *realSubj) data(o vh.Op) *C.struct_Steinberg_Vst_ProcessData {
	n := o.I("n")
	d := (*C.struct_Steinberg_Vst_ProcessData)(s.m.get(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	d.numSamples = C.int(n)
	lanes := func(c int) *C.struct_Steinberg_Vst_AudioBusBuffers {
		bufs := []unsafe.Pointer{}
		for ; len(bufs) < c; bufs = append(bufs, s.m.get(4*n)) {
		}
		return s.m.lanes(new([][]unsafe.Pointer), []int{c}, bufs)
	}
	if o.I("ins") > 0 || !o.B("bare") {
		d.numInputs, d.inputs = 1, lanes(o.I("ins"))
	}
	if o.I("outs") > 0 || !o.B("bare") {
		d.numOutputs, d.outputs = 1, lanes(o.I("outs"))
	}
	if pts := o.L("pts"); len(pts) > 0 {
		c := C.h_changes(C.int(len(pts)))
		s.m.l = append(s.m.l, unsafe.Pointer(c), unsafe.Pointer(c.q))
		for i, x := range pts {
			t := vh.ToList(x)
			q := C.h_queue(C.uint32_t(vh.ToInt(t[0])), 1)
			s.m.l = append(s.m.l, unsafe.Pointer(q), unsafe.Pointer(q.offs), unsafe.Pointer(q.vals), unsafe.Pointer(q.bad))
			*q.offs, *q.vals = C.int32_t(vh.ToInt(t[1])), C.double(float64(vh.ToInt(t[2]))/64)
			unsafe.Slice(c.q, len(pts))[i] = q
		}
		d.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(unsafe.Pointer(c))
	}
	if o.B("tr") {
		c := (*C.struct_Steinberg_Vst_ProcessContext)(s.m.get(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
		c.state = 0xFFFF
		c.tempo, c.timeSigNumerator, c.timeSigDenominator, c.projectTimeMusic, c.barPositionMusic = 120, 3, 4, 7.25, 6
		d.processContext = c
	}
	return d
}

func genReal(r *rand.Rand, i int, tier string) []vh.Op {
	ids := []int{}
	for k := r.Intn(6); k >= 0; k-- {
		ids = append(ids, 3*len(ids))
	}
	max := 1 + r.Intn(1000)
	ops := []vh.Op{{"op": "new", "ids": ids, "max": max}, {"op": "processing", "on": true}}
	for len(ops) < 14 {
		if r.Intn(12) == 0 {
			ops = append(ops, vh.Op{"op": "processing", "on": r.Intn(2) == 0})
			continue
		}
		// one block over and over, or different ones in turn
		bs := []any{}
		for k := 1 + r.Intn(4)*r.Intn(2); k > 0; k-- {
			n := r.Intn(max + 1)
			if r.Intn(4) == 0 {
				n = max
			}
			pts := []any{}
			if r.Intn(4) > 0 {
				k := []int{1, 2, 5, 20, 60, 128, 200}[r.Intn(7)]
				for ; k > 0; k-- {
					pts = append(pts, []int{r.Intn(len(ids)*3 + 1), r.Intn(n + 1), r.Intn(65)})
				}
			}
			do := []string{"pass", "copy", "clear", "channels", "stereo", "mono", "samples", "samples", "separately", "setat", "music", "events", ""}[r.Intn(13)]
			ch := func() int { return []int{0, 1, 2, 2, 2, 3, 8, 20}[r.Intn(8)] }
			bs = append(bs, map[string]any{"n": n, "ins": ch(), "outs": ch(), "pts": pts, "do": do, "tr": r.Intn(2) == 0, "bare": r.Intn(2) == 0})
		}
		ops = append(ops, vh.Op{"op": []string{"context", "block"}[r.Intn(2)], "bs": bs})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "realtime", New: func() vh.Subject { return &realSubj{} }, Gen: genReal, Quick: 300, Thorough: 3000})
}
