package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/vh"
)

type noteSubj struct{}

var evTypes = map[midi.EventType]string{midi.EventTypeNoteOn: "on", midi.EventTypeNoteOff: "off", midi.EventTypePolyPressure: "poly", midi.EventTypeControlChange: "cc", midi.EventTypeProgramChange: "program",
	midi.EventTypeChannelPressure: "pressure", midi.EventTypePitchBend: "bend", midi.EventTypeClock: "clock", midi.EventTypeStart: "start", midi.EventTypeStop: "stop", midi.EventTypeContinue: "continue"}

func (noteSubj) Do(o vh.Op) any {
	a := 0.0
	if o.S("op") != "name" && o.S("op") != "event" && o.S("op") != "bend" {
		a = float64(o.I("a")) / 16
	}
	tune := a
	if a == 0 {
		tune = 440
	}
	switch o.S("op") {
	case "name":
		return midi.NoteNumberToName(uint8(o.I("n")))
	case "freq":
		m, e := math.Frexp(midi.NoteToFrequency(uint8(o.I("n")), a) / tune)
		if k := q20(m); k == 1<<20 { // rounding just below a power of two
			m, e = 0.5, e+1
		} else if q20(math.Abs(m-1)) <= 1 {
			m, e = 0.5, e+1
		}
		o["m"], o["e"] = q20(m), e
	case "note":
		return int(midi.FrequencyToNote(tune*math.Exp2(float64(o.I("c"))/1200), a))
	case "silent":
		return int(midi.FrequencyToNote(-float64(o.I("c")), a))
	case "back":
		return int(midi.FrequencyToNote(midi.NoteToFrequency(uint8(o.I("n")), a), a))
	case "bend":
		return q20(midi.PitchBendEvent{Value: int16(o.I("v"))}.NormalizedValue())
	case "event":
		b := midi.BaseEvent{EventChannel: uint8(o.I("ch")), Offset: int32(o.I("off"))}
		n, v := uint8(o.I("n")), o.I("v")
		var e midi.Event
		switch o.S("k") {
		case "on":
			e = midi.NoteOnEvent{BaseEvent: b, NoteNumber: n, Velocity: uint8(v)}
		case "off":
			e = midi.NoteOffEvent{BaseEvent: b, NoteNumber: n, Velocity: uint8(v)}
		case "poly":
			e = midi.PolyPressureEvent{BaseEvent: b, NoteNumber: n, Pressure: uint8(v)}
		case "cc":
			e = midi.ControlChangeEvent{BaseEvent: b, Controller: n, Value: uint8(v)}
		case "program":
			e = midi.ProgramChangeEvent{BaseEvent: b, Program: n}
		case "pressure":
			e = midi.ChannelPressureEvent{BaseEvent: b, Pressure: uint8(v)}
		case "bend":
			e = midi.PitchBendEvent{BaseEvent: b, Value: int16(v)}
		case "clock":
			e = midi.ClockEvent{BaseEvent: b}
		case "start":
			e = midi.StartEvent{BaseEvent: b}
		case "stop":
			e = midi.StopEvent{BaseEvent: b}
		case "continue":
			e = midi.ContinueEvent{BaseEvent: b}
		}
		return []any{evTypes[e.Type()], int(e.Channel()), int(e.SampleOffset()), e.String()}
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func genNotes(r *rand.Rand, i int, tier string) []vh.Op {
	var ops []vh.Op
	for len(ops) < 40 {
		a := 6400 + r.Intn(1400)
		if r.Intn(3) == 0 {
			a = 0
		}
		n := r.Intn(128)
		switch r.Intn(7) {
		case 0:
			ops = append(ops, vh.Op{"op": "name", "n": n})
		case 1:
			ops = append(ops, vh.Op{"op": "freq", "n": n, "a": a})
		case 2:
			c := r.Intn(13600) - 7300
			if c%100 == 50 || c%100 == -50 {
				c++
			}
			ops = append(ops, vh.Op{"op": "note", "c": c, "a": a})
		case 3:
			ops = append(ops, vh.Op{"op": "back", "n": n, "a": a})
		case 4:
			ops = append(ops, vh.Op{"op": "bend", "v": r.Intn(16384) - 8192})
		case 5:
			if r.Intn(10) == 0 {
				ops = append(ops, vh.Op{"op": "silent", "c": r.Intn(2) * r.Intn(1000), "a": a})
			}
		default:
			k := []string{"on", "off", "poly", "cc", "program", "pressure", "bend", "clock", "start", "stop", "continue"}[r.Intn(11)]
			v := r.Intn(128)
			if k == "bend" {
				v = r.Intn(16384) - 8192
			}
			ops = append(ops, vh.Op{"op": "event", "k": k, "ch": r.Intn(16), "n": n, "v": v, "off": r.Intn(5000)})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "notes", New: func() vh.Subject { return noteSubj{} }, Gen: genNotes, Quick: 600, Thorough: 4000})
}
