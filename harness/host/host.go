// Command host loads the plugin side of vst3go through its C interface and
// drives it the way a host does.
package main

// #cgo CFLAGS: -I${SRCDIR}/../../cabi/include -Wno-unused-function
// #include "com.h"
import "C"
import (
	"io"
	"sync"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/pkg/plugin"
	_ "github.com/justyntemme/vst3go/pkg/plugin/cbridge"
	"verif/vh"
)

func main() { vh.Main() }

// proc is a plugin that writes down what reaches it.
type proc struct {
	params   *param.Registry
	ids      []uint32
	buses    *bus.Configuration
	clear    bool // empties its event queue, as a synthesizer does
	fail     bool
	latency  int32
	tail     int32
	inits    [][2]int
	active   []int
	calls    []map[string]any
	custom   []byte // nil: keeps none
	loadFail, saveFail bool
	bad      *int // 1: its calls fail, 2: they panic
	breaks   int  // the call of a block it panics in
}

func (p *proc) failing() bool {
	if p.bad != nil && *p.bad == 2 {
		panic("plugin")
	}
	return p.fail || p.bad != nil && *p.bad == 1
}

func (p *proc) Initialize(rate float64, max int32) error {
	p.inits = append(p.inits, [2]int{int(rate), int(max)})
	if p.failing() {
		return io.ErrUnexpectedEOF
	}
	return nil
}
func (p *proc) GetParameters() *param.Registry { return p.params }
func (p *proc) GetBuses() *bus.Configuration   { return p.buses }
func (p *proc) SetActive(a bool) error {
	p.active = append(p.active, b2i(a))
	if p.failing() {
		return io.ErrUnexpectedEOF
	}
	return nil
}
func (p *proc) GetLatencySamples() int32 { return p.latency }
func (p *proc) GetTailSamples() int32    { return p.tail }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func ints(b []float32) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
		if float32(r[i]) != x {
			r[i] = -777777
		}
	}
	return r
}

func evs(l []midi.Event) [][]int {
	r := [][]int{}
	for _, e := range l {
		switch e := e.(type) {
		case midi.NoteOnEvent:
			r = append(r, []int{0, int(e.Offset), int(e.EventChannel), int(e.NoteNumber), int(e.Velocity)})
		case midi.NoteOffEvent:
			r = append(r, []int{1, int(e.Offset), int(e.EventChannel), int(e.NoteNumber), int(e.Velocity)})
		default:
			r = append(r, []int{9, int(e.SampleOffset()), int(e.Channel()), 0, 0})
		}
	}
	return r
}

func (p *proc) vals() []int {
	r := []int{}
	for _, id := range p.ids {
		r = append(r, int(64*p.params.Get(id).GetValue()))
	}
	return r
}

func transport(t *process.TransportInfo) []int {
	r := []int{b2i(t.IsPlaying), b2i(t.IsRecording), b2i(t.IsCycling), b2i(t.HasTempo), b2i(t.HasTimeSignature), b2i(t.HasMusicalTime), b2i(t.HasBarPosition), b2i(t.HasCycle)}
	for i, x := range []float64{t.Tempo, float64(t.TimeSigNumerator), float64(t.TimeSigDenominator), t.ProjectTimeMusic, t.BarPositionMusic, t.CycleStartMusic, t.CycleEndMusic} {
		if r[[]int{3, 4, 4, 5, 6, 7, 7}[i]] == 0 {
			x = 0 // not said to be valid
		}
		r = append(r, int(x))
	}
	return append(r, int(t.ProjectTimeSamples), int(t.ContinuousTimeSamples), int(t.SamplesToNextClock))
}

func (p *proc) ProcessAudio(ctx *process.Context) {
	in := [][]int{}
	for _, b := range ctx.Input {
		in = append(in, ints(b))
	}
	outs := []int{}
	for _, b := range ctx.Output {
		outs = append(outs, len(b))
	}
	work := ctx.WorkBuffer()
	for i := range work {
		work[i] = -5
	}
	p.calls = append(p.calls, map[string]any{"in": in, "outs": outs, "vals": p.vals(), "ev": evs(ctx.GetAllInputEvents()),
		"tr": transport(ctx.Transport), "rate": int(ctx.SampleRate), "len": ctx.NumSamples(), "has": b2i(ctx.HasInputEvents())})
	if len(p.calls) == p.breaks {
		panic("plugin")
	}
	v := 0
	if len(p.ids) > 0 {
		v = p.vals()[0]
	}
	for c := range ctx.Output {
		for i := range ctx.Output[c] {
			x := float32(1000*(c+1) + 100000*v)
			if c < len(ctx.Input) {
				x += ctx.Input[c][i]
			}
			ctx.Output[c][i] = x
		}
	}
	if p.clear {
		ctx.ClearInputEvents()
	}
}

// keeper is a proc with a state of its own.
type keeper struct{ *proc }

func (k keeper) SaveCustomState(w io.Writer) error {
	_, err := w.Write(k.custom)
	if k.saveFail {
		return io.ErrShortWrite
	}
	return err
}
func (k keeper) LoadCustomState(r io.Reader) error {
	b, err := io.ReadAll(r)
	if k.loadFail {
		return io.ErrUnexpectedEOF
	}
	k.custom = b
	return err
}

// maker hands out the processor prepared for it.
type maker struct {
	info fplugin.Info
	next plugin.Processor
}

func (m *maker) GetInfo() fplugin.Info            { return m.info }
func (m *maker) CreateProcessor() plugin.Processor { return m.next }

var facMu sync.Mutex

// inst is one created component with all its faces.
type inst struct {
	comp *C.IComp
	aud  *C.IProc
	ctl  *C.ICtl
	p    *proc
}

func create(info fplugin.Info, pr plugin.Processor, p *proc) *inst {
	facMu.Lock()
	defer facMu.Unlock()
	plugin.Register(&maker{info, pr})
	f := C.GetPluginFactory()
	uid := info.UID()
	cid := (*C.char)(C.CBytes(uid[:]))
	defer C.free(unsafe.Pointer(cid))
	out := (*unsafe.Pointer)(C.calloc(1, 8))
	defer C.free(unsafe.Pointer(out))
	if C.h_create(f, cid, 2, out) != 0 || *out == nil {
		return nil
	}
	in := &inst{comp: (*C.IComp)(*out), p: p}
	if C.h_qi(*out, 3, out) != 0 {
		return nil
	}
	in.aud = (*C.IProc)(*out)
	if C.h_qi(*out, 4, out) != 0 {
		return nil
	}
	in.ctl = (*C.ICtl)(*out)
	return in
}

func (in *inst) close() {
	if in != nil {
		C.h_release(unsafe.Pointer(in.ctl))
		C.h_release(unsafe.Pointer(in.aud))
		C.h_release(unsafe.Pointer(in.comp))
	}
}

func guid(n string) fplugin.Info { return fplugin.Info{ID: "org.verif." + n, Name: n} }
