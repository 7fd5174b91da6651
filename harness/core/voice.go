package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/voice"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/vh"
)

type mockVoice struct {
	st        int // 0 idle, 1 held, 2 released
	note, vel uint8
	age       int64
	amp       float64
	trig      int
	unison    bool // driven together with the others
}

func (v *mockVoice) IsActive() bool        { return v.st != 0 }
func (v *mockVoice) GetNote() uint8        { return v.note }
func (v *mockVoice) GetVelocity() uint8    { return v.vel }
func (v *mockVoice) GetAmplitude() float64 { return v.amp }
func (v *mockVoice) GetAge() int64         { return v.age }
func (v *mockVoice) TriggerNote(n, vel uint8) {
	if v.st != 0 && v.note != n && !v.unison {
		v.trig += 10 // still sounding another note
	}
	v.st, v.note, v.vel, v.age, v.amp = 1, n, vel, 0, float64(vel)
	v.trig++
}
func (v *mockVoice) ReleaseNote() {
	if v.st == 1 {
		v.st = 2
	}
}
func (v *mockVoice) Stop()                { v.st = 0; v.age = 0; v.amp = 0 }
func (v *mockVoice) Process(out []float32) {}

type voiceSubj struct {
	vs []*mockVoice
	a  *voice.Allocator
}

var modes = map[string]voice.AllocationMode{"poly": voice.ModePoly, "mono": voice.ModeMono, "legato": voice.ModeLegato, "unison": voice.ModeUnison}
var steals = map[string]voice.StealingMode{"oldest": voice.StealOldest, "quietest": voice.StealQuietest, "highest": voice.StealHighest, "lowest": voice.StealLowest, "never": voice.StealNone}

func (s *voiceSubj) Do(o vh.Op) any {
	for _, v := range s.vs {
		v.trig = 0
	}
	switch o.S("op") {
	case "new":
		n := o.I("n")
		l := []voice.Voice{}
		for i := 0; i < n; i++ {
			v := &mockVoice{}
			s.vs = append(s.vs, v)
			l = append(l, v)
		}
		s.a = voice.NewAllocator(l)
	case "on":
		s.a.NoteOn(uint8(o.I("note")), uint8(o.I("vel")))
	case "off":
		s.a.NoteOff(uint8(o.I("note")), 64)
	case "pedal":
		s.a.SetSustainPedal(o.B("on"))
	case "reset":
		s.a.Reset()
	case "mode":
		s.a.SetMode(modes[o.S("m")])
		for _, v := range s.vs {
			v.unison = o.S("m") == "unison"
		}
	case "steal":
		s.a.SetStealingMode(steals[o.S("s")])
	case "max":
		s.a.SetMaxVoices(o.I("m"))
	case "tick":
		for _, v := range s.vs {
			if v.st != 0 {
				v.age += int64(o.I("k"))
			}
		}
	case "loud":
		s.vs[o.I("i")-1].amp = float64(o.I("a"))
	case "end":
		s.vs[o.I("i")-1].st = 0
	case "midi":
		a, b := uint8(o.I("a")), uint8(o.I("b"))
		switch o.S("k") {
		case "on":
			s.a.ProcessEvent(midi.NoteOnEvent{NoteNumber: a, Velocity: b})
		case "off":
			s.a.ProcessEvent(midi.NoteOffEvent{NoteNumber: a, Velocity: b})
		case "cc":
			s.a.ProcessEvent(midi.ControlChangeEvent{Controller: a, Value: b})
		case "bend":
			s.a.ProcessEvent(midi.PitchBendEvent{Value: int16(a)})
		case "prog":
			s.a.ProcessEvent(midi.ProgramChangeEvent{Program: a})
		default:
			panic("harness: midi kind")
		}
	default:
		panic("harness: unknown op")
	}
	l := make([][]int, len(s.vs))
	for i, v := range s.vs {
		l[i] = []int{v.st, 0, 0, v.trig}
		if v.st != 0 {
			l[i][1], l[i][2] = int(v.note), int(v.vel)
		}
	}
	return []any{s.a.GetActiveVoiceCount(), l}
}

// focus: "poly", "steal", "sustain", "mono"
func genVoice(focus string) func(r *rand.Rand, i int, tier string) []vh.Op {
	return func(r *rand.Rand, i int, tier string) []vh.Op {
		n := 1 + r.Intn(6)
		if i%7 == 0 {
			n = 8 + r.Intn(9)
		}
		ops := []vh.Op{{"op": "new", "n": n}}
		notes := []int{0, 127}
		for len(notes) < 3+r.Intn(2*n+3) {
			notes = append(notes, r.Intn(128))
		}
		stealModes := []string{"oldest", "quietest", "highest", "lowest", "never"}
		switch focus {
		case "mono":
			ops = append(ops, vh.Op{"op": "mode", "m": []string{"mono", "legato", "unison"}[r.Intn(3)]})
		case "steal":
			ops = append(ops, vh.Op{"op": "steal", "s": stealModes[r.Intn(5)]})
		default:
			if r.Intn(2) == 0 {
				ops = append(ops, vh.Op{"op": "steal", "s": stealModes[r.Intn(5)]})
			}
		}
		note := func() int { return notes[r.Intn(len(notes))] }
		down := []int{}
		L := 30 + r.Intn(60)
		for len(ops) < L {
			x := r.Intn(100)
			switch {
			case x < 35:
				nn := note()
				vel := 1 + r.Intn(127)
				down = append(down, nn)
				if r.Intn(3) == 0 {
					ops = append(ops, vh.Op{"op": "midi", "k": "on", "a": nn, "b": vel})
				} else {
					ops = append(ops, vh.Op{"op": "on", "note": nn, "vel": vel})
				}
			case x < 58:
				nn := note()
				if len(down) > 0 && r.Intn(5) > 0 {
					j := r.Intn(len(down))
					nn = down[j]
					down = append(down[:j], down[j+1:]...)
				}
				switch r.Intn(6) {
				case 0:
					ops = append(ops, vh.Op{"op": "midi", "k": "off", "a": nn, "b": r.Intn(128)})
				case 1:
					ops = append(ops, vh.Op{"op": "midi", "k": "on", "a": nn, "b": 0})
				default:
					ops = append(ops, vh.Op{"op": "off", "note": nn})
				}
			case x < 68:
				ops = append(ops, vh.Op{"op": "tick", "k": 1 + r.Intn(5)})
			case x < 74:
				ops = append(ops, vh.Op{"op": "loud", "i": 1 + r.Intn(n), "a": r.Intn(10)})
			case x < 80:
				ops = append(ops, vh.Op{"op": "end", "i": 1 + r.Intn(n)})
			case x < 90:
				switch focus {
				case "sustain", "mono":
					if r.Intn(2) == 0 {
						ops = append(ops, vh.Op{"op": "pedal", "on": r.Intn(2) == 0})
					} else {
						ops = append(ops, vh.Op{"op": "midi", "k": "cc", "a": 64, "b": []int{0, 1, 63, 64, 65, 127}[r.Intn(6)]})
					}
				case "steal":
					ops = append(ops, vh.Op{"op": "loud", "i": 1 + r.Intn(n), "a": r.Intn(10)})
				case "poly":
					ops = append(ops, vh.Op{"op": "midi", "k": []string{"cc", "bend", "prog"}[r.Intn(3)], "a": []int{1, 7, 63, 65}[r.Intn(4)], "b": r.Intn(128)})
				}
			case x < 93:
				ops = append(ops, vh.Op{"op": "max", "m": r.Intn(n+3) - 1})
			case x < 95:
				ops = append(ops, vh.Op{"op": "steal", "s": stealModes[r.Intn(5)]})
			case x < 97:
				m := "poly"
				if focus == "mono" {
					m = []string{"mono", "legato", "unison"}[r.Intn(3)]
				} else if focus == "sustain" && r.Intn(4) == 0 {
					m = []string{"mono", "legato", "unison"}[r.Intn(3)]
				}
				ops = append(ops, vh.Op{"op": "mode", "m": m})
			case x < 98:
				ops = append(ops, vh.Op{"op": "reset"})
			}
		}
		return ops
	}
}

func init() {
	for _, f := range []string{"poly", "steal", "sustain", "mono"} {
		vh.Register(&vh.Domain{
			Name: "voice-" + f, New: func() vh.Subject { return &voiceSubj{} },
			Gen: genVoice(f), Quick: 600, Thorough: 4000,
		})
	}
}
