package main

import (
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/vh"
)

const one20 = 1 << 20

type oscSubj struct {
	k     string
	sr    float64
	osc   *oscillator.Oscillator
	blit  *oscillator.BLITOscillator
	saw   *oscillator.BandLimitedSaw
	lfo   *modulation.LFO
	noise *utility.NoiseGenerator
	n     int
}

var noiseType = map[string]utility.NoiseType{"white": utility.WhiteNoise, "pink": utility.PinkNoise, "brown": utility.BrownNoise, "blue": utility.BlueNoise, "violet": utility.VioletNoise}
var lfoWave = map[string]modulation.Waveform{"sine": modulation.WaveformSine, "triangle": modulation.WaveformTriangle, "square": modulation.WaveformSquare,
	"saw": modulation.WaveformSawtooth, "random": modulation.WaveformRandom}

func (s *oscSubj) Do(o vh.Op) any {
	s.n++
	op := o.S("op")
	u := func(k string, d float64) float64 { return float64(o.I(k)) / d }
	switch op {
	case "osc":
		s.k, s.sr = op, float64(o.I("sr"))
		s.osc = oscillator.New(s.sr)
	case "blit":
		s.k, s.sr = op, 8192
		s.blit = oscillator.NewBLIT(s.sr)
	case "blsaw":
		s.k, s.sr = op, 8192
		s.saw = oscillator.NewBandLimitedSaw(s.sr)
	case "lfo":
		s.k = op
		s.lfo = modulation.NewLFO(1024)
	case "noise":
		s.k = op
		s.noise = utility.NewNoiseGenerator(noiseType[o.S("c")])
	case "inc":
		f := u("x", one20) * s.sr
		switch s.k {
		case "osc":
			s.osc.SetFrequency(f)
		case "blit":
			s.blit.SetFrequency(f)
		default:
			s.saw.SetFrequency(f)
		}
	case "freq":
		s.lfo.SetFrequency(u("x", 64))
	case "wave":
		s.lfo.SetWaveform(lfoWave[o.S("w")])
	case "depth":
		s.lfo.SetDepth(u("x", 64))
	case "offset":
		s.lfo.SetOffset(u("x", 64))
	case "enable":
		s.lfo.EnableSync(o.B("on"), u("x", one20))
	case "sync":
		s.lfo.Sync()
	case "phase":
		if s.k == "osc" {
			s.osc.SetPhase(u("x", one20))
		} else {
			s.lfo.SetPhase(u("x", one20))
		}
	case "reset":
		switch s.k {
		case "osc":
			s.osc.Reset()
		case "lfo":
			s.lfo.Reset()
		default:
			s.noise.Reset()
		}
	case "color":
		s.noise.SetType(noiseType[o.S("c")])
	case "stats":
		o["m"] = moments(o.S("c"), o.I("n"))
	case "run":
		n := o.I("n")
		f32 := make([]float32, n)
		y := make([]int, n)
		whole := s.n%2 == 0
		each := func(f func() float32) {
			for i := range f32 {
				f32[i] = f()
			}
		}
		switch s.k {
		case "osc":
			width := u("width", one20)
			switch w := o.S("w"); {
			case w == "sine" && whole:
				s.osc.ProcessSine(f32)
			case w == "sine":
				each(s.osc.Sine)
			case w == "saw" && whole:
				s.osc.ProcessSaw(f32)
			case w == "saw":
				each(s.osc.Saw)
			case w == "square" && whole:
				s.osc.ProcessSquare(f32)
			case w == "square":
				each(s.osc.Square)
			case w == "triangle" && whole:
				s.osc.ProcessTriangle(f32)
			case w == "triangle":
				each(s.osc.Triangle)
			case whole:
				s.osc.ProcessPulse(f32, width)
			default:
				each(func() float32 { return s.osc.Pulse(width) })
			}
		case "blit":
			each(s.blit.BLIT)
		case "blsaw":
			if whole {
				s.saw.Process(f32)
			} else {
				each(s.saw.Next)
			}
		case "lfo":
			f64 := make([]float64, n)
			if whole {
				s.lfo.ProcessBuffer(f64)
			} else {
				for i := range f64 {
					f64[i] = s.lfo.Process()
				}
			}
			for i := range f64 {
				y[i] = q20(f64[i])
			}
			o["y"], o["ph"] = y, q20(s.lfo.GetPhase())
			return []int{}
		case "noise":
			seed := int64(o.I("seed"))
			white := utility.NewNoiseGenerator(utility.WhiteNoise)
			white.SetSeed(seed)
			ws := make([]int, 2*n)
			for i := range ws {
				ws[i] = q20(float64(white.Next()))
			}
			o["ws"] = ws
			s.noise.SetSeed(seed)
			switch s.n % 3 {
			case 0:
				s.noise.Generate(f32)
			case 1:
				each(s.noise.Next)
			default:
				for i := range f32 {
					f32[i] = float32(i % 7)
				}
				s.noise.GenerateAdd(f32, 0.5)
				for i := range f32 {
					f32[i] = (f32[i] - float32(i%7)) * 2
				}
			}
		}
		for i := range f32 {
			y[i] = q20(float64(f32[i]))
		}
		o["y"] = y
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

// moments draws n samples of a source: smallest, largest, mean, mean square, products of
// neighbours one and two apart, and the shares beyond one and two deviations of 0.3, all in 2^-20.
func moments(c string, n int) []int {
	x := make([]float32, n)
	next := utility.WhiteNoiseSample
	switch c {
	case "buffer":
		utility.WhiteNoiseBuffer(x)
	case "gen":
		utility.NewNoiseGenerator(utility.WhiteNoise).Generate(x)
	case "gauss":
		next = utility.NewGaussianNoise().Next
	case "gaussbuf":
		utility.NewGaussianNoise().Generate(x)
	case "lfo":
		l := modulation.NewLFO(64)
		l.SetWaveform(modulation.WaveformRandom)
		l.SetFrequency(16)
		next = func() float32 {
			l.Process()
			l.Process()
			l.Process()
			return float32(l.Process())
		}
	}
	if c != "buffer" && c != "gen" && c != "gaussbuf" {
		for i := range x {
			x[i] = next()
		}
	}
	lo, hi, sum, sq, p1, p2, b1, b2 := 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
	for i, v := range x {
		v := float64(v)
		lo, hi, sum, sq = min(lo, v), max(hi, v), sum+v, sq+v*v
		if i > 0 {
			p1 += v * float64(x[i-1])
		}
		if i > 1 {
			p2 += v * float64(x[i-2])
		}
		if v < -0.3 || v > 0.3 {
			b1++
		}
		if v < -0.6 || v > 0.6 {
			b2++
		}
	}
	m := float64(n)
	return []int{q20(lo), q20(hi), q20(sum / m), q20(sq / m), q20(p1 / m), q20(p2 / m), q20(b1 / m), q20(b2 / m)}
}

func genOsc(r *rand.Rand, i int, tier string) []vh.Op {
	k := []string{"osc", "osc", "blit", "blsaw", "lfo", "lfo", "noise"}[i%7]
	colors := []string{"white", "pink", "brown", "blue", "violet"}
	op := vh.Op{"op": k}
	switch k {
	case "osc":
		op["sr"] = []int{8192, 65536, 32768}[r.Intn(3)]
	case "noise":
		op["c"] = colors[r.Intn(5)]
	}
	ops := []vh.Op{op}
	add := func(o vh.Op) { ops = append(ops, o) }
	if k == "noise" {
		add(vh.Op{"op": "stats", "c": []string{"sample", "buffer", "gen", "gauss", "gaussbuf", "lfo"}[i/7%6], "n": 100000})
	}
	phase := func() int {
		return []int{r.Intn(one20), -r.Intn(one20), r.Intn(8 * one20), one20, one20 / 2, one20/2 - 1, 0, one20 - 1}[r.Intn(8)]
	}
	for len(ops) < 30 {
		switch r.Intn(5) {
		case 0:
			switch k {
			case "osc":
				add(vh.Op{"op": "inc", "x": []int{r.Intn(one20), r.Intn(one20 / 8), -r.Intn(one20), one20 + r.Intn(one20), 0, one20 / 2, 1 << r.Intn(20), -1 << r.Intn(20)}[r.Intn(8)]})
			case "blit", "blsaw":
				add(vh.Op{"op": "inc", "x": []int{13000 + r.Intn(200000), 16384 << r.Intn(5), 200000 + r.Intn(500000)}[r.Intn(3)]})
			case "lfo":
				add(vh.Op{"op": "freq", "x": []int{1 + r.Intn(1280), 1 + r.Intn(1280), 1 << r.Intn(11), 1280 + r.Intn(5000), -r.Intn(5)}[r.Intn(5)]})
			case "noise":
				add(vh.Op{"op": "color", "c": colors[r.Intn(5)]})
			}
		case 1:
			switch k {
			case "osc":
				add(vh.Op{"op": "phase", "x": phase()})
			case "lfo":
				switch r.Intn(6) {
				case 0:
					add(vh.Op{"op": "phase", "x": phase()})
				case 1:
					add(vh.Op{"op": "depth", "x": r.Intn(90) - 10})
				case 2:
					add(vh.Op{"op": "offset", "x": r.Intn(160) - 80})
				case 3:
					add(vh.Op{"op": "enable", "on": r.Intn(4) > 0, "x": phase()})
				case 4:
					add(vh.Op{"op": "sync"})
				case 5:
					w := []string{"sine", "triangle", "square", "saw", "random"}[r.Intn(5)]
					add(vh.Op{"op": "wave", "w": w})
					if w == "random" && r.Intn(2) == 0 {
						add(vh.Op{"op": "freq", "x": 640 + r.Intn(640)})
					}
				}
			}
		case 2:
			if k != "blit" && k != "blsaw" && r.Intn(3) == 0 {
				add(vh.Op{"op": "reset"})
			}
		}
		o := vh.Op{"op": "run", "n": 1 + r.Intn(12)}
		if r.Intn(6) == 0 {
			o["n"] = 40 + r.Intn(60)
		}
		switch k {
		case "osc":
			o["w"] = []string{"sine", "saw", "square", "triangle", "pulse"}[r.Intn(5)]
			o["width"] = []int{r.Intn(one20), one20 / 2, 0, one20, one20 / 4}[r.Intn(5)]
		case "noise":
			o["seed"] = r.Intn(1 << 20)
		}
		add(o)
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "osc", New: func() vh.Subject { return &oscSubj{} }, Gen: genOsc, Quick: 700, Thorough: 5000})
}
