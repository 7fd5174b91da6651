package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"verif/vh"
)

type busSubj struct {
	b []*bus.Builder
	c []*bus.Configuration
}

func busRec(i *bus.Info) []any {
	return []any{int(i.MediaType), int(i.Direction), int(i.ChannelCount), i.Name, int(i.BusType), i.IsActive}
}

func template(t string, n int) *bus.Configuration {
	switch t {
	case "stereo0":
		return bus.NewStereoConfiguration()
	case "mono0":
		return bus.NewMonoConfiguration()
	case "stereo":
		return bus.NewEffectStereo()
	case "mono":
		return bus.NewEffectMono()
	case "sidechain":
		return bus.NewEffectStereoSidechain()
	case "m2s":
		return bus.NewMonoToStereo()
	case "s2m":
		return bus.NewStereoToMono()
	case "dualmono":
		return bus.NewDualMono()
	case "midside":
		return bus.NewMidSideProcessor()
	case "panner":
		return bus.NewSurroundPanner()
	case "s51":
		return bus.NewSurround5_1Effect()
	case "s71":
		return bus.NewSurround7_1Effect()
	case "mixer":
		return bus.NewMixerChannel(n)
	case "analyzer":
		return bus.NewAnalyzer()
	case "generator":
		return bus.NewGenerator()
	case "midi":
		return bus.NewMIDIEffect()
	case "vocoder":
		return bus.NewVocoder()
	case "multi":
		return bus.NewMultiChannelEffect(int32(n))
	case "crossover":
		return bus.NewCrossover(n)
	case "splitter":
		return bus.NewSplitter(n)
	}
	panic("harness: template " + t)
}

var templates = []string{"stereo0", "mono0", "stereo", "mono", "sidechain", "m2s", "s2m", "dualmono", "midside", "panner",
	"s51", "s71", "mixer", "analyzer", "generator", "midi", "vocoder", "multi", "crossover", "splitter"}
var shorts = []string{"stereoin", "stereoout", "monoin", "monoout", "sidechain", "quadin", "quadout", "in51", "out51", "in71", "out71"}

func (s *busSubj) Do(o vh.Op) any {
	none := []int{}
	md := func() (bus.MediaType, bus.Direction) { return bus.MediaType(o.I("m")), bus.Direction(o.I("d")) }
	var b *bus.Builder
	if _, ok := o["k"]; ok {
		b = s.b[o.I("k")-1]
	}
	var c *bus.Configuration
	if _, ok := o["c"]; ok {
		c = s.c[o.I("c")-1]
	}
	switch o.S("op") {
	case "builder":
		s.b = append(s.b, bus.NewBuilder())
	case "template":
		s.c = append(s.c, template(o.S("t"), o.I("n")))
	case "with":
		n, ch := o.S("n"), int32(o.I("ch"))
		switch o.I("d")*2 + o.I("ty") {
		case 0:
			b.WithAudioInput(n, ch)
		case 1:
			b.WithAuxInput(n, ch)
		case 2:
			b.WithAudioOutput(n, ch)
		case 3:
			b.WithAuxOutput(n, ch)
		}
	case "short":
		f := map[string]func(string) *bus.Builder{"stereoin": b.WithStereoInput, "stereoout": b.WithStereoOutput, "monoin": b.WithMonoInput,
			"monoout": b.WithMonoOutput, "sidechain": b.WithSidechain, "quadin": b.WithQuadInput, "quadout": b.WithQuadOutput,
			"in51": b.With5_1Input, "out51": b.With5_1Output, "in71": b.With7_1Input, "out71": b.With7_1Output}[o.S("s")]
		f(o.S("n"))
	case "event":
		if o.I("d") == 0 {
			b.WithEventInput(o.S("n"))
		} else {
			b.WithEventOutput(o.S("n"))
		}
	case "bactive":
		m, d := md()
		b.SetBusActive(m, d, int32(o.I("i")), o.B("b"))
	case "build":
		cfg, err := b.Build()
		if err != nil {
			return []int{0}
		}
		s.c = append(s.c, cfg)
		return []int{1}
	case "addevent":
		c.AddEventBus(bus.Direction(o.I("d")), o.S("n"))
	case "active":
		m, d := md()
		if c.SetBusActive(m, d, int32(o.I("i")), o.B("b")) != nil {
			return []int{0}
		}
		return []int{1}
	case "count":
		m, d := md()
		return []int{int(c.GetBusCount(m, d))}
	case "info":
		m, d := md()
		i := c.GetBusInfo(m, d, int32(o.I("i")))
		if i == nil {
			return none
		}
		return []any{busRec(i)}
	case "chans":
		if o.I("d") == 0 {
			return []int{int(c.GetActiveInputChannelCount())}
		}
		return []int{int(c.GetActiveOutputChannelCount())}
	case "activelist":
		m, d := md()
		r := []any{}
		l := c.GetActiveBuses(m, d)
		for i := range l {
			r = append(r, busRec(&l[i]))
			l[i].IsActive = false // the list is a copy
			l[i].ChannelCount = 31
		}
		return r
	case "side":
		i := c.GetSidechainBus()
		if c.HasSidechain() != (i != nil) {
			return []any{"sidechain queries disagree"}
		}
		if i == nil {
			return none
		}
		return []any{busRec(i)}
	default:
		panic("harness: unknown op")
	}
	return none
}

func genBus(r *rand.Rand, i int, tier string) []vh.Op {
	var ops []vh.Op
	nb, nc := 0, 0
	add := func(o vh.Op) { ops = append(ops, o) }
	names := []string{"a", "b", "Main", "Side"}
	add(vh.Op{"op": "builder"})
	nb++
	valid := func() (ok bool) { // would building now succeed? decided by running it
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		s := &busSubj{}
		for _, o := range ops {
			s.Do(o)
		}
		return len(s.c) > nc
	}
	for len(ops) < 45 {
		k := 1 + r.Intn(nb)
		md := func(o vh.Op) vh.Op {
			o["m"], o["d"], o["i"] = r.Intn(2), r.Intn(2), r.Intn(5)-1
			return o
		}
		switch r.Intn(14) {
		case 0:
			if nb < 3 {
				add(vh.Op{"op": "builder"})
				nb++
			}
		case 1:
			add(vh.Op{"op": "template", "t": templates[r.Intn(len(templates))], "n": 1 + r.Intn(5)})
			nc++
		case 2:
			ch := 1 + r.Intn(32)
			if r.Intn(12) == 0 {
				ch = []int{0, -1, 33, 100}[r.Intn(4)]
			}
			add(vh.Op{"op": "with", "k": k, "d": r.Intn(2), "ty": r.Intn(2), "ch": ch, "n": names[r.Intn(4)]})
		case 3, 4:
			add(vh.Op{"op": "short", "k": k, "s": shorts[r.Intn(len(shorts))], "n": names[r.Intn(4)]})
		case 5:
			add(vh.Op{"op": "event", "k": k, "d": r.Intn(2), "n": names[r.Intn(4)]})
		case 6:
			if r.Intn(3) == 0 {
				add(md(vh.Op{"op": "bactive", "k": k, "b": r.Intn(2) == 0}))
			}
		case 7:
			add(vh.Op{"op": "build", "k": k})
			if valid() {
				nc++
			}
		}
		if nc == 0 {
			continue
		}
		c := 1 + r.Intn(nc)
		switch r.Intn(8) {
		case 0:
			add(vh.Op{"op": "addevent", "c": c, "d": r.Intn(2), "n": names[r.Intn(4)]})
		case 1:
			add(md(vh.Op{"op": "active", "c": c, "b": r.Intn(2) == 0}))
		case 2:
			add(md(vh.Op{"op": "count", "c": c}))
		case 3, 4:
			add(md(vh.Op{"op": "info", "c": c}))
		case 5:
			add(vh.Op{"op": "chans", "c": c, "d": r.Intn(2)})
		case 6:
			add(md(vh.Op{"op": "activelist", "c": c}))
		case 7:
			add(vh.Op{"op": "side", "c": c})
		}
	}
	return ops
}

// every bus of every template
func fixedBus(tier string) [][]vh.Op {
	var hs [][]vh.Op
	for _, t := range templates {
		for n := 1; n <= 4; n++ {
			h := []vh.Op{{"op": "template", "t": t, "n": n}, {"op": "side", "c": 1}}
			for m := 0; m < 2; m++ {
				for d := 0; d < 2; d++ {
					h = append(h, vh.Op{"op": "count", "c": 1, "m": m, "d": d}, vh.Op{"op": "activelist", "c": 1, "m": m, "d": d},
						vh.Op{"op": "chans", "c": 1, "d": d})
					for i := -1; i < 8; i++ {
						h = append(h, vh.Op{"op": "info", "c": 1, "m": m, "d": d, "i": i})
					}
				}
			}
			hs = append(hs, h)
		}
	}
	return hs
}

func init() {
	vh.Register(&vh.Domain{Name: "bus", New: func() vh.Subject { return &busSubj{} }, Gen: genBus, Fixed: fixedBus, Quick: 600, Thorough: 5000})
}
