package main

// #include "com.h"
import "C"
import (
	"io"
	"math/rand"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/vh"
)

// cycleSubj is a plugin on the framework's base, loaded by a host.
type cycleSubj struct {
	in    *inst
	p     *fplugin.SimpleProcessor
	calls [][]int
	bad   int
}

func (s *cycleSubj) Close() { s.in.close() }

func (s *cycleSubj) log(c ...int) error {
	s.calls = append(s.calls, c)
	switch s.bad {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		panic("plugin")
	}
	return nil
}

func (s *cycleSubj) set(o vh.Op) {
	s.p.OnInitialize(nil)
	s.p.OnSetActive(nil)
	s.p.OnReset(nil)
	if o.B("init") {
		s.p.OnInitialize(func(rate float64, n int32) error { return s.log(1, int(rate), int(n)) })
	}
	if o.B("active") {
		s.p.OnSetActive(func(a bool) error { return s.log(2, b2i(a)) })
	}
	if o.B("reset") {
		s.p.OnReset(func() { s.calls = append(s.calls, []int{3}) })
	}
}

func (s *cycleSubj) Do(o vh.Op) any {
	s.calls, s.bad = [][]int{}, 0
	if b, ok := o["bad"]; ok {
		s.bad = vh.ToInt(b)
	}
	defer func() { o["calls"] = s.calls }()
	switch o.S("op") {
	case "new":
		s.Close()
		var b *bus.Configuration
		switch o.I("buses") {
		case 1:
			b = bus.NewMonoConfiguration()
		case 2:
			b = bus.NewStereoConfiguration()
		}
		var f func(*process.Context)
		if o.B("audio") {
			f = func(c *process.Context) { s.calls = append(s.calls, []int{4, c.NumSamples(), int(c.SampleRate)}) }
		}
		s.p = fplugin.NewSimpleProcessor(b, f)
		s.p.Parameters().Add(param.New(1, "p").Build())
		s.set(o)
		s.in = create(guid("cycle"), s.p, nil)
		return []int{b2i(s.in != nil)}
	case "callbacks":
		s.set(o)
		return []int{}
	case "init":
		return []int{int(C.c_init(s.in.comp))}
	case "setup":
		return []int{int(C.p_setup(s.in.aud, C.double(o.I("rate")), C.int(o.I("n"))))}
	case "active":
		return []int{int(C.c_active(s.in.comp, C.int(b2i(o.B("on")))))}
	case "processing":
		return []int{int(C.p_processing(s.in.aud, C.int(b2i(o.B("on")))))}
	case "process":
		n := o.I("n")
		mem := (*C.float)(C.calloc(C.size_t(n+1), 4))
		ch := (**C.float)(C.calloc(1, 8))
		bb := (*C.struct_Steinberg_Vst_AudioBusBuffers)(C.calloc(1, C.sizeof_struct_Steinberg_Vst_AudioBusBuffers))
		d := (*C.struct_Steinberg_Vst_ProcessData)(C.calloc(1, C.sizeof_struct_Steinberg_Vst_ProcessData))
		*ch = mem
		C.h_bus(bb, 0, 1, ch)
		d.numSamples, d.numInputs, d.inputs, d.numOutputs, d.outputs = C.int(n), 1, bb, 1, bb
		r := int(C.p_process(s.in.aud, d))
		for _, p := range []unsafe.Pointer{unsafe.Pointer(mem), unsafe.Pointer(ch), unsafe.Pointer(bb), unsafe.Pointer(d)} {
			C.free(p)
		}
		return []int{r}
	case "facts":
		return []int{int(s.p.SampleRate()), int(s.p.GetBuses().GetBusInfo(bus.MediaTypeAudio, bus.DirectionOutput, 0).ChannelCount), int(s.p.GetLatencySamples()), int(s.p.GetTailSamples()),
			b2i(s.p.GetParameters() == s.p.Parameters() && s.p.GetParameters().Count() == 1 && int(C.e_count(s.in.ctl)) == 1)}
	}
	panic("harness: unknown op")
}

func genCycle(r *rand.Rand, i int, tier string) []vh.Op {
	cbs := func(op string) vh.Op {
		y := func() bool { return r.Intn(4) > 0 }
		return vh.Op{"op": op, "init": y(), "active": y(), "reset": y(), "audio": r.Intn(6) > 0, "buses": r.Intn(3)}
	}
	bad := func() int {
		if r.Intn(5) == 0 {
			return 1 + r.Intn(2)
		}
		return 0
	}
	ops := []vh.Op{cbs("new")}
	told := false // a host says the sample rate before it processes
	for len(ops) < 40 {
		switch r.Intn(10) {
		case 0:
			told = false
			ops = append(ops, vh.Op{"op": "init", "bad": bad()})
		case 1, 2:
			told = true
			ops = append(ops, vh.Op{"op": "setup", "bad": bad(), "rate": []int{22050, 44100, 48000, 96000}[r.Intn(4)], "n": []int{0, -1, 1, 16, 512, 8192}[r.Intn(6)]})
		case 3, 4:
			ops = append(ops, vh.Op{"op": "active", "bad": bad(), "on": r.Intn(2) == 0})
		case 5:
			ops = append(ops, vh.Op{"op": "processing", "on": r.Intn(3) > 0})
		case 6, 7:
			if told {
				ops = append(ops, vh.Op{"op": "process", "n": r.Intn(20)})
			}
		case 8:
			ops = append(ops, vh.Op{"op": "facts"})
		case 9:
			if r.Intn(3) == 0 {
				ops = append(ops, cbs([]string{"new", "callbacks"}[r.Intn(2)]))
				told = told && ops[len(ops)-1].S("op") != "new"
			}
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "lifecycle", New: func() vh.Subject { return &cycleSubj{} }, Gen: genCycle, Quick: 600, Thorough: 4000})
}
