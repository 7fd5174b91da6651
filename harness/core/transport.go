package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/vh"
)

type trSubj struct{ t process.TransportInfo }

func (s *trSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "set":
		m := vh.Op(o["tr"].(map[string]any))
		s.t = process.TransportInfo{
			TimeSigNumerator: int32(m.I("num")), TimeSigDenominator: int32(m.I("den")),
			ProjectTimeMusic: float64(m.I("music")) / 64, BarPositionMusic: float64(m.I("bar")) / 64, Tempo: float64(m.I("tempo")) / 4,
			HasMusicalTime: m.B("hasm"), HasBarPosition: m.B("hasb"), HasTimeSignature: m.B("hass"), HasTempo: m.B("hast"),
		}
		return []int{}
	case "bars":
		bars, beats := s.t.GetBarsBeats()
		return []int{bars, exact(beats * 256)}
	case "pos":
		return []int{exact(s.t.GetBeatPosition() * 256)}
	case "on":
		return []int{b2i(s.t.IsOnBeat(float64(o.I("thr")) / 256))}
	case "spb":
		o["got"] = int(math.Round(s.t.GetSamplesPerBeat(float64(o.I("rate"))) * 64))
		return []int{}
	}
	panic("harness: unknown op")
}

func genTr(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	for len(ops) < 30 {
		den := 1 << r.Intn(5)
		num := 1 + r.Intn(12)
		// positions at bars, at beats and between them, also before the start
		music := r.Intn(20000) - 4000
		switch r.Intn(4) {
		case 0:
			music = (r.Intn(40) - 10) * num * 256 / den
		case 1:
			music = (r.Intn(60) - 20) * 256 / den
		case 2:
			music = (r.Intn(60)-20)*256/den + r.Intn(3) - 1
		}
		bar := (r.Intn(40) - 10) * num * 256 / den
		if r.Intn(12) == 0 {
			num = r.Intn(2) - r.Intn(2)
		}
		if r.Intn(12) == 0 {
			den = -r.Intn(2)
		}
		tempo := 4 * (20 + r.Intn(280))
		switch r.Intn(4) {
		case 0:
			tempo = 2 + r.Intn(4000)
		case 1:
			tempo = -r.Intn(2)
		}
		yes := func() bool { return r.Intn(8) > 0 }
		ops = append(ops, vh.Op{"op": "set", "tr": map[string]any{"num": num, "den": den, "music": music, "bar": bar, "tempo": tempo, "hasm": yes(), "hasb": yes(), "hass": yes(), "hast": yes()}})
		ops = append(ops, vh.Op{"op": "bars"}, vh.Op{"op": "pos"}, vh.Op{"op": "on", "thr": []int{1, 8, 32, 64, 128, 200, 0}[r.Intn(7)]},
			vh.Op{"op": "spb", "rate": []int{8000, 22050, 44100, 48000, 96000, 192000}[r.Intn(6)]})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "transport", New: func() vh.Subject { return &trSubj{} }, Gen: genTr, Quick: 2000, Thorough: 12000})
}
