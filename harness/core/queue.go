package main

import (
	"fmt"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/vh"
)

// An event of the specification is [k, id, off]; every payload field of the
// real event is a function of k and id, so that a lost or mixed-up payload
// shows as id -1.
func mkEvent(k, id, off int) midi.Event {
	b := midi.BaseEvent{EventChannel: uint8(id), Offset: int32(off)}
	p, q := uint8(id%128), uint8((id*7+3)%128)
	switch k {
	case 0:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: p, Velocity: q}
	case 1:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: p, Velocity: q}
	case 2:
		return midi.ControlChangeEvent{BaseEvent: b, Controller: p, Value: q}
	case 3:
		return midi.PitchBendEvent{BaseEvent: b, Value: int16(id*31 - 4000)}
	case 4:
		return midi.PolyPressureEvent{BaseEvent: b, NoteNumber: p, Pressure: q}
	case 5:
		return midi.ChannelPressureEvent{BaseEvent: b, Pressure: q}
	case 6:
		return midi.ProgramChangeEvent{BaseEvent: b, Program: q}
	case 7:
		return midi.ClockEvent{BaseEvent: b}
	case 8:
		return midi.StartEvent{BaseEvent: b}
	case 9:
		return midi.StopEvent{BaseEvent: b}
	case 10:
		return midi.ContinueEvent{BaseEvent: b}
	}
	panic("harness: bad event kind")
}

func unEvent(e midi.Event) []int {
	if e == nil {
		return []int{-1, -1, 0}
	}
	for k := 0; k <= 10; k++ {
		id := int(e.Channel())
		off := int(e.SampleOffset())
		if mkEvent(k, id, off) == e {
			return []int{k, id, off}
		}
	}
	return []int{-1, -1, int(e.SampleOffset())}
}

func evList(es []midi.Event) [][]int {
	r := make([][]int, len(es))
	for i, e := range es {
		r[i] = unEvent(e)
	}
	return r
}

type evSink struct{ l []midi.Event }

func (s *evSink) ProcessEvent(e midi.Event) { s.l = append(s.l, e) }

func opEvents(o vh.Op, k string) []midi.Event {
	l := o.L(k)
	r := make([]midi.Event, len(l))
	for i, v := range l {
		t := vh.ToList(v)
		r[i] = mkEvent(vh.ToInt(t[0]), vh.ToInt(t[1]), vh.ToInt(t[2]))
	}
	return r
}

func unit() map[string]any { return map[string]any{"ok": true} }

type queueSubj struct {
	q    *midi.EventQueue
	kept []delivered
}

// Events once delivered belong to the caller: nothing the queue does later
// may change them, and nothing the caller does to them may change the queue.
type delivered struct {
	es   []midi.Event
	want [][]int
}

func (s *queueSubj) keep(es []midi.Event, scribble bool) [][]int {
	want := evList(es)
	if scribble {
		for i := range es {
			es[i] = midi.ClockEvent{}
		}
		_ = append(es, midi.ClockEvent{}, midi.ClockEvent{})
	} else if len(es) > 0 {
		s.kept = append(s.kept, delivered{es, want})
	}
	return want
}

func (s *queueSubj) Do(o vh.Op) any {
	r := s.do(o)
	for _, d := range s.kept {
		for i, e := range unEventsAs(d) {
			if !e {
				panic("an event already delivered has changed: " + fmt.Sprint(d.want[i]))
			}
		}
	}
	return r
}

func unEventsAs(d delivered) []bool {
	r := make([]bool, len(d.es))
	for i, e := range d.es {
		w := d.want[i]
		r[i] = w[0] >= 0 && e == mkEvent(w[0], w[1], w[2])
	}
	return r
}

func (s *queueSubj) do(o vh.Op) any {
	q := s.q
	switch o.S("op") {
	case "add":
		t := o.IL("ev")
		q.Add(mkEvent(t[0], t[1], t[2]))
		return []int{}
	case "addmany":
		es := opEvents(o, "evs")
		q.AddMultiple(es)
		for i := range es { // the caller may reuse its slice
			es[i] = midi.ClockEvent{}
		}
		return []int{}
	case "range":
		return s.keep(q.GetEventsInRange(int32(o.I("a")), int32(o.I("b"))), o["own"] == true)
	case "process":
		s := &evSink{}
		q.ProcessEvents(s, int32(o.I("a")), int32(o.I("b")))
		return evList(s.l)
	case "all":
		return s.keep(q.GetAllEvents(), o["own"] == true)
	case "size":
		e := 0
		if q.IsEmpty() {
			e = 1
		}
		return []int{q.Size(), e}
	case "remove":
		q.RemoveProcessedEvents(int32(o.I("u")))
		return []int{}
	case "shift":
		q.OffsetEvents(int32(o.I("d")))
		return []int{}
	case "clear":
		q.Clear()
		return []int{}
	}
	panic("harness: unknown op " + o.S("op"))
}

func genQueue(r *rand.Rand, i int, tier string) []vh.Op {
	n := 10 + r.Intn(40)
	if i%10 == 0 {
		n = 150
	}
	ops := []vh.Op{}
	id := 0
	size := 0
	max := 60
	if i%6 == 1 {
		max = 200
		n = 60
	}
	spread := []int{3, 8, 64, 512}[r.Intn(4)]
	off := func() int { return r.Intn(spread) - r.Intn(3) }
	ev := func() []int {
		id++
		return []int{r.Intn(11), id % 256, off()}
	}
	for len(ops) < n && id < 170 {
		switch x := r.Intn(100); {
		case x < 35 && size < max:
			ops = append(ops, vh.Op{"op": "add", "ev": ev()})
			size++
		case x < 45 && size < max:
			k := r.Intn(6)
			if r.Intn(8) == 0 {
				k = 16 + r.Intn(8)
			} else if max > 60 && size < max/2 {
				k = 20 + r.Intn(60)
			}
			l := [][]int{}
			for j := 0; j < k; j++ {
				l = append(l, ev())
			}
			size += k
			ops = append(ops, vh.Op{"op": "addmany", "evs": l})
		case x < 65:
			a := off()
			ops = append(ops, vh.Op{"op": []string{"range", "process"}[r.Intn(2)], "a": a, "b": a + r.Intn(spread+2) - 1, "own": r.Intn(3) == 0})
		case x < 72:
			ops = append(ops, vh.Op{"op": "all", "own": r.Intn(3) == 0})
		case x < 77:
			ops = append(ops, vh.Op{"op": "size"})
		case x < 87:
			ops = append(ops, vh.Op{"op": "remove", "u": off()})
			size = size * 2 / 3
		case x < 95:
			ops = append(ops, vh.Op{"op": "shift", "d": r.Intn(2*spread) - spread})
		default:
			ops = append(ops, vh.Op{"op": "clear"})
			size = 0
		}
	}
	return append(ops, vh.Op{"op": "all"}, vh.Op{"op": "size"})
}

func init() {
	vh.Register(&vh.Domain{
		Name: "queue", New: func() vh.Subject { return &queueSubj{q: midi.NewEventQueue()} },
		Gen: genQueue, Quick: 900, Thorough: 3000,
	})
}
