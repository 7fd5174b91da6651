package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/vh"
)

var lufsTones = [][2]int{{1000, 48000}, {1000, 16000}, {1000, 44100}, {100, 48000}, {200, 16000}, {5000, 48000}, {3000, 16000}, {500, 8000},
	// only steady
	{40, 16000}, {25, 48000}, {60, 44100}}

type loudSubj struct {
	m      *analysis.LUFSMeter
	f, sr  int
	ch, at int
}

// feed gives n frames to the meter in uneven pieces.
func (s *loudSubj) feed(n, seed int, frame func(i, c int) float64) []int {
	buf := make([]float64, n*s.ch)
	for i := 0; i < n; i++ {
		for c := 0; c < s.ch; c++ {
			buf[i*s.ch+c] = frame(s.at+i, c)
		}
	}
	s.at += n
	r := rand.New(rand.NewSource(int64(seed)))
	whole := r.Intn(3) == 0
	for k := 0; k < n; {
		b := n - k
		if !whole {
			b = 1 + r.Intn(1200)
			if b > n-k {
				b = n - k
			}
		}
		s.m.Process(buf[k*s.ch : (k+b)*s.ch])
		k += b
	}
	return []int{qdb(s.m.GetMomentaryLUFS()), qdb(s.m.GetShortTermLUFS()), qdb(s.m.GetIntegratedLUFS()), qdb(s.m.GetLoudnessRange())}
}

func (s *loudSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		t := lufsTones[o.I("tone")-1]
		*s = loudSubj{f: t[0], sr: t[1], ch: o.I("ch")}
		s.m = analysis.NewLUFSMeter(float64(s.sr), s.ch)
	case "reset":
		s.m.Reset()
		s.at = 0
	case "tone":
		amp := make([]float64, s.ch)
		for c, d := range o.IL("ds") {
			if d != -200 {
				amp[c] = math.Pow(10, float64(d)/20)
			}
		}
		got := s.feed(s.sr/10, o.I("seed"), func(i, c int) float64 {
			return amp[c] * math.Sin(2*math.Pi*float64(s.f)*float64(i)/float64(s.sr))
		})
		o["got"] = got
		return got
	case "steady":
		amp := math.Pow(10, float64(o.I("d"))/20)
		var got []int
		for k := 0; k < 2; k++ {
			got = s.feed(s.sr/2, o.I("seed"), func(i, c int) float64 {
				if c != 0 {
					return 0
				}
				return amp * math.Sin(2*math.Pi*float64(s.f)*float64(i)/float64(s.sr))
			})
		}
		o["got"] = got
		return got
	case "constant":
		s.feed(s.sr/2, 1, func(i, c int) float64 { return 0.5 })
		got := s.feed(s.sr/2, o.I("seed"), func(i, c int) float64 { return 0.5 })
		o["got"] = got
		return got
	}
	return []int{}
}

func genLoud(r *rand.Rand, i int, tier string) []vh.Op {
	ch := []int{1, 2, 2, 5, 6, 3}[r.Intn(6)]
	ops := []vh.Op{{"op": "new", "ch": ch, "tone": 1 + r.Intn(8)}}
	if i%20 == 0 {
		return append(ops, vh.Op{"op": "constant", "seed": 1})
	}
	if i%20 < 5 {
		ops[0]["tone"] = 1 + r.Intn(len(lufsTones))
		return append(ops, vh.Op{"op": "steady", "d": -r.Intn(40), "seed": r.Intn(1 << 20)})
	}
	ds := make([]int, ch)
	start := func() {
		for c := range ds {
			ds[c] = -200
			if r.Intn(3) == 0 {
				ds[c] = -r.Intn(100)
			}
		}
	}
	start()
	n := []int{6, 12, 35, 45}[r.Intn(4)]
	stay := r.Intn(2) == 0
	for k := 0; k < n; k++ {
		if k > 0 && (!stay || r.Intn(5) == 0) {
			for c := range ds {
				d := -r.Intn(90)
				// a fall of more than 20 dB within a step, 3 at low frequencies, would leave a tail
				fall := 20
				if lufsTones[ops[0].I("tone")-1][0] < 1000 {
					fall = 3
				}
				if ds[c] != -200 && d < ds[c]-fall {
					d = ds[c] - r.Intn(fall+1)
				}
				if ds[c] == -200 && r.Intn(3) > 0 {
					d = -200
				}
				if r.Intn(3) == 0 {
					ds[c] = d
				}
			}
		}
		ops = append(ops, vh.Op{"op": "tone", "ds": append([]int{}, ds...), "seed": r.Intn(1 << 20)})
		if r.Intn(40) == 0 {
			ops = append(ops, vh.Op{"op": "reset"})
			start()
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "loudness", New: func() vh.Subject { return &loudSubj{} }, Gen: genLoud, Quick: 240, Thorough: 1500})
}
