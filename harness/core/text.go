package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

type textSubj struct {
	p    *param.Parameter
	last string // as it came out
	n    int
}

var signs = strings.NewReplacer("∞", "inf", "°", "deg", "µ", "u")

func th(x float64) int {
	y := math.Round(x * 1000)
	if math.IsNaN(y) || math.Abs(y) > 1<<30 {
		return 1 << 30
	}
	return int(y)
}

func facts(p *param.Parameter) []any {
	return []any{th(p.Min), th(p.Max), th(p.Min + p.DefaultValue*(p.Max-p.Min)), int(p.StepCount), signs.Replace(p.Unit)}
}

func mkText(o vh.Op) *param.Parameter { return mkBuilder(o, 1, "p").Build() }

func mkBuilder(o vh.Op, id uint32, name string) *param.Builder {
	f := func(k string) float64 { return float64(o.I(k)) / 1000 }
	k := o.S("k")
	custom := func(lo, hi, d float64, steps int32, fm func(float64) string, ps func(string) (float64, error)) *param.Builder {
		b := param.New(id, name).Range(lo, hi).Default(d).Formatter(fm, ps)
		if steps > 0 {
			b = b.Steps(steps)
		}
		return b
	}
	var b *param.Builder
	switch k {
	case "plain":
		b = param.New(id, name).Range(f("lo"), f("hi")).Default(f("d")).Steps(int32(o.I("steps")))
	case "gain":
		b = param.GainParameter(id, name)
	case "mix":
		b = param.MixParameter(id, name)
	case "feedback":
		b = param.FeedbackParameter(id, name)
	case "drive":
		b = param.DriveParameter(id, name)
	case "depth":
		b = param.DepthParameter(id, name)
	case "freq":
		b = param.FrequencyParameter(id, name, f("lo"), f("hi"), f("d"))
	case "rate":
		b = param.RateParameter(id, name, f("lo"), f("hi"), f("d"))
	case "time":
		b = param.TimeParameter(id, name, f("lo"), f("hi"), f("d"))
	case "attack":
		b = param.AttackParameter(id, name, f("hi"))
	case "release":
		b = param.ReleaseParameter(id, name, f("hi"))
	case "threshold":
		b = param.ThresholdParameter(id, name, f("lo"), f("hi"), f("d"))
	case "meter":
		b = param.OutputLevelMeter(id, name)
	case "ratio":
		b = param.RatioParameter(id, name, f("lo"), f("hi"), f("d"))
	case "q":
		b = param.QParameter(id, name, f("lo"), f("hi"), f("d"))
	case "pan":
		b = param.PanParameter(id, name)
	case "phase":
		b = param.PhaseParameter(id, name)
	case "res":
		b = param.ResonanceParameter(id, name)
	case "bypass":
		b = param.BypassParameter(id, name)
	case "choice":
		var os []param.ChoiceOption
		for _, x := range o.L("opts") {
			l := x.([]any)
			c := param.ChoiceOption{Value: float64(vh.ToInt(l[0])), Name: l[1].(string)}
			for _, a := range l[2:] {
				c.Aliases = append(c.Aliases, a.(string))
			}
			os = append(os, c)
		}
		b = param.Choice(id, name, os)
	case "ratiof":
		b = custom(f("lo"), f("hi"), f("d"), 0, param.RatioFormatter, param.RatioParser)
	case "timeu":
		b = custom(f("lo"), f("hi"), f("d"), 0, param.TimeFormatter, param.TimeParser)
	case "panu":
		b = custom(f("lo"), f("hi"), f("d"), 0, param.PanFormatter, param.PanParser)
	case "knee":
		b = custom(f("lo"), f("hi"), f("d"), 0, func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, param.DecibelParser)
	case "onoff":
		b = custom(0, 1, 0, 1, param.OnOffFormatter, param.OnOffParser)
	case "ftype":
		b = custom(0, 7, 0, 7, param.FilterTypeFormatter, param.FilterTypeParser)
	case "gtype":
		b = custom(0, 3, 0, 3, param.GateTypeFormatter, param.GateTypeParser)
	case "note":
		b = custom(0, 127, f("d"), 127, param.NoteFormatter, param.NoteParser)
	default:
		panic("harness: unknown kind")
	}
	return b
}

func (s *textSubj) group(g string, n int) []*param.Parameter {
	r := param.NewAutoRegistry()
	var err error
	switch g {
	case "std":
		err = r.RegisterStandardControls()
	case "comp":
		err = r.RegisterCompressorControls()
	case "eq":
		err = r.RegisterEQBand(n)
	}
	if err != nil {
		panic(err)
	}
	return r.All()
}

func (s *textSubj) read(o vh.Op, text string) {
	x, err := s.p.ParseValue(text)
	o["ok"] = err == nil
	o["y"] = 0
	if err == nil {
		o["y"] = th(s.p.Denormalize(x))
	}
}

func spell(w string, c int) string {
	switch c % 4 {
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToLower(w)
	case 3:
		return strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}

func (s *textSubj) Do(o vh.Op) any {
	s.n++
	switch o.S("op") {
	case "new":
		s.p = mkText(o)
		return facts(s.p)
	case "take":
		s.p = s.group(o.S("g"), 3)[o.I("i")-1]
		return facts(s.p)
	case "register":
		out := []any{}
		for _, p := range s.group(o.S("g"), o.I("n")) {
			out = append(out, append([]any{p.Name}, facts(p)...))
		}
		return out
	case "format":
		v := float64(o.I("v")) / 1000
		if s.n%2 == 0 {
			s.last = s.p.FormatValue(s.p.Normalize(v))
		} else {
			s.p.SetPlainValue(v)
			s.last = s.p.FormatValue(s.p.GetValue())
		}
		o["text"] = signs.Replace(s.last)
	case "back":
		s.read(o, s.last)
	case "parse":
		n, k := o.I("n"), o.I("k")
		t := fmt.Sprintf("%.*f", k, float64(n)/math.Pow10(k)) + o.S("unit")
		if u := o["pre"]; u != nil {
			t = u.(string) + t
		}
		s.read(o, t)
	case "word":
		t := o.S("w")
		if t == "?" {
			t = []string{"abc", "", "--1", "loud", "?"}[o.I("c")%5]
		} else if o.I("c")%2 == 1 {
			t = strings.Replace(t, "inf", "∞", 1)
		}
		s.read(o, t)
	case "name":
		t := spell(o.S("w"), o.I("c"))
		if s.p.StepCount == 127 {
			t += fmt.Sprint(o.I("i"))
		}
		s.read(o, t)
	default:
		panic("harness: unknown op")
	}
	return []any{}
}

var textUnits = map[string][]string{
	"plain": {""}, "res": {""}, "q": {""},
	"gain": {"", " dB", "dB", " db"}, "mix": {"", "%"}, "freq": {"", " Hz", "hz", " kHz", "khz"},
	"time": {"", " ms", "MS", " s", "S"}, "timeu": {"", " ms", "us", " us", " s", "s"}, "ratio": {"", ":1", " :1"},
	"pan":  {"", "%", " l", "% L", "% left", " Left", "r", "% R", "% Right"},
	"panu": {"", "L", " l", "R", " r"}, "phase": {"", "deg", " deg", " degrees"},
}
var unitClass = map[string]string{"threshold": "gain", "knee": "gain", "feedback": "mix", "drive": "mix", "depth": "mix", "rate": "freq",
	"attack": "time", "release": "time", "ratiof": "ratio"}
var unitMul = map[string]float64{" kHz": 1000, "khz": 1000, " s": 1000, "S": 1000, "s": 1000, "us": 0.001, " us": 0.001}
var fAlias = [][]string{{"Lowpass", "lowpass", "low pass", "lpf", "lp"}, {"Highpass", "highpass", "high pass", "hpf", "hp"}, {"Bandpass", "bandpass", "band pass", "bpf", "bp"},
	{"Notch", "notch", "band reject", "band stop", "br", "bs"}, {"Allpass", "allpass", "all pass", "apf", "ap"},
	{"Peaking EQ", "peaking", "peaking eq", "peak", "bell", "parametric"}, {"Low Shelf", "low shelf", "lowshelf", "ls", "bass"}, {"High Shelf", "high shelf", "highshelf", "hs", "treble"}}
var gAlias = [][]string{{"Hard Gate", "hard", "hard gate", "gate"}, {"Soft Gate", "soft", "soft gate"}, {"Expander", "expander", "expand", "expansion"}, {"Ducker", "ducker", "duck", "ducking"}}
var noteSpell = []string{"C", "C#", "Db", "D", "D#", "Eb", "E", "Fb", "E#", "F", "F#", "Gb", "G", "G#", "Ab", "A", "A#", "Bb", "B", "B#", "Cb"}
var textKinds = []string{"plain", "gain", "mix", "feedback", "drive", "depth", "freq", "rate", "time", "attack", "release", "threshold", "meter", "ratio", "q", "pan", "phase", "res",
	"bypass", "choice", "choice", "ratiof", "timeu", "panu", "knee", "onoff", "ftype", "gtype", "note", "note"}

func genText(r *rand.Rand, i int, tier string) []vh.Op {
	k := textKinds[i%len(textKinds)]
	op := vh.Op{"op": "new", "k": k}
	lo, hi := 0, 1000
	rng := func(a, b int) { lo, hi = a, b; op["lo"], op["hi"], op["d"] = a, b, a+r.Intn(b-a+1) }
	pick := func(xs ...[2]int) { x := xs[r.Intn(len(xs))]; rng(x[0], x[1]) }
	var names [][]string
	switch k {
	case "plain":
		pick([2]int{0, 1000}, [2]int{-5000, 5000}, [2]int{0, 127000}, [2]int{20000, 2000000})
		op["steps"] = []int{0, 0, 1, 5, 127}[r.Intn(5)]
	case "gain":
		lo, hi = -80000, 12000
	case "mix", "feedback", "drive", "depth":
		hi = 100000
	case "freq":
		pick([2]int{20000, 20000000}, [2]int{100, 5000000}, [2]int{500000, 1500000})
	case "rate":
		pick([2]int{10, 20000}, [2]int{0, 2000}, [2]int{100, 10000})
	case "time", "timeu":
		pick([2]int{100, 5000000}, [2]int{0, 2000}, [2]int{900000, 1100000}, [2]int{0, 10000})
	case "attack":
		hi = []int{100000, 5000, 2000000}[r.Intn(3)]
		op["hi"], lo = hi, 100
	case "release":
		hi = []int{1000000, 50000, 5000000}[r.Intn(3)]
		op["hi"], lo = hi, 1000
	case "threshold":
		pick([2]int{-60000, 0}, [2]int{-80000, 0}, [2]int{-40000, 12000}, [2]int{-120000, 0})
	case "meter":
		lo, hi = -60000, 0
	case "ratio", "ratiof":
		pick([2]int{1000, 20000}, [2]int{1000, 100000}, [2]int{1000, 200000})
	case "q":
		pick([2]int{100, 10000}, [2]int{500, 20000})
	case "pan":
		lo, hi = -100000, 100000
	case "panu":
		rng(-1000, 1000)
	case "phase":
		hi = 360000
	case "knee":
		rng(0, 10000)
	case "bypass":
		names = [][]string{{"Active"}, {"Bypassed"}}
	case "onoff":
		names = [][]string{{"off", "no", "false", "0"}, {"on", "yes", "true", "1"}}
	case "ftype":
		names, hi = fAlias, 7000
	case "gtype":
		names, hi = gAlias, 3000
	case "note":
		hi = 127000
		op["d"] = r.Intn(128) * 1000
	case "choice":
		n := 2 + r.Intn(9)
		v := r.Intn(5) - 2
		var opts []any
		for j := 0; j < n; j++ {
			o := []any{v, fmt.Sprintf("Mode %c", 'A'+j)}
			names = append(names, []string{fmt.Sprintf("Mode %c", 'A'+j)})
			if r.Intn(2) == 0 {
				a := fmt.Sprintf("m%c", 'a'+j)
				o = append(o, a)
				names[j] = append(names[j], a)
			}
			opts = append(opts, o)
			if j == 0 {
				lo = v * 1000
			}
			hi = v * 1000
			v++
			if r.Intn(4) == 0 {
				v += r.Intn(3)
			}
		}
		op["opts"] = opts
	}
	// whole-number ranges whose points are not exactly representable once normalised
	ops := []vh.Op{op}
	if d, ok := op["d"]; ok && k != "note" && k != "panu" && r.Intn(4) == 0 {
		op["d"] = d.(int) + (hi-lo)*(r.Intn(5)-2)
	}
	if r.Intn(10) == 0 {
		g := []string{"std", "comp", "eq"}[r.Intn(3)]
		ops = append([]vh.Op{{"op": "register", "g": g, "n": r.Intn(12)}}, ops...)
	}
	value := func() int {
		d := hi - lo
		var v int
		switch r.Intn(6) {
		case 0:
			v = lo + r.Intn(d/1000+1)*1000
		case 1:
			v = lo + r.Intn(d/10+1)*10
		case 2:
			v = []int{lo, hi, lo - 1000, hi + 1000, 0}[r.Intn(5)]
		case 3: // around the boundaries of what is shown
			b := []int{1000000, 1000, -60000, -80000, 100000, 10, -10, 500, 999950, 999995}[r.Intn(10)]
			v = b + r.Intn(203) - 101
		default:
			v = lo + r.Intn(d+1)
		}
		return v
	}
	u := k
	if c, ok := unitClass[k]; ok {
		u = c
	}
	for len(ops) < 40 {
		ops = append(ops, vh.Op{"op": "format", "v": value()})
		if k != "meter" && r.Intn(3) > 0 {
			ops = append(ops, vh.Op{"op": "back"})
		}
		if names != nil && r.Intn(2) == 0 {
			j := r.Intn(len(names))
			ops = append(ops, vh.Op{"op": "name", "w": names[j][r.Intn(len(names[j]))], "i": j + 1, "c": r.Intn(4)})
		}
		if k == "note" && r.Intn(2) == 0 {
			ops = append(ops, vh.Op{"op": "name", "w": noteSpell[r.Intn(len(noteSpell))], "i": r.Intn(11) - 1, "c": r.Intn(4)})
		}
		if us := textUnits[u]; us != nil && r.Intn(2) == 0 {
			un := us[r.Intn(len(us))]
			kk := r.Intn(4)
			v := float64(value()) / 1000
			if m := unitMul[un]; m != 0 {
				v /= m
			}
			for kk > 0 && math.Abs(v*math.Pow10(kk)) > 1e9 {
				kk--
			}
			n := int(math.Round(v * math.Pow10(kk)))
			p := vh.Op{"op": "parse", "n": n, "k": kk, "unit": un}
			if k == "q" {
				p["pre"] = []string{"", "Q: ", "q:", "Q "}[r.Intn(4)]
			}
			if k == "panu" {
				p["n"], p["k"] = r.Intn(1001), 1
				if un == "" {
					p["n"], p["k"] = r.Intn(2001)-1000, 3
				}
			}
			ops = append(ops, p)
		}
		if r.Intn(6) == 0 && k != "meter" {
			w := "?"
			if r.Intn(2) == 0 {
				switch k {
				case "gain", "threshold":
					w = "-inf db"
				case "ratio":
					w = "inf:1"
				case "pan", "panu":
					w = []string{"center", "c"}[r.Intn(2)]
				}
			}
			ops = append(ops, vh.Op{"op": "word", "w": w, "c": r.Intn(10)})
		}
		if r.Intn(300) == 0 {
			break
		}
	}
	if i%17 == 0 { // a member of a group
		g, m := "comp", 5
		if r.Intn(2) == 0 {
			g, m = "eq", 4
		}
		ops = append(ops, vh.Op{"op": "take", "g": g, "i": m})
		for j := 0; j < 8; j++ {
			ops = append(ops, vh.Op{"op": "format", "v": r.Intn(11000)}, vh.Op{"op": "back"})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "text", New: func() vh.Subject { return &textSubj{} }, Gen: genText, Quick: 1200, Thorough: 9000,
		Fixed: func(string) [][]vh.Op {
			all := []vh.Op{{"op": "new", "k": "note", "d": 60000}}
			for n := 0; n < 128; n++ {
				all = append(all, vh.Op{"op": "format", "v": n * 1000}, vh.Op{"op": "back"})
			}
			hs := [][]vh.Op{all}
			for _, g := range []string{"std", "comp", "eq"} {
				hs = append(hs, []vh.Op{{"op": "register", "g": g, "n": 1}, {"op": "register", "g": g, "n": 7}})
			}
			// every member of the groups over its range
			all2 := map[string][]int{"std": {1, 100, 12, 12}, "comp": {0, 20, 100, 1000, 10, 1}, "eq": {1, 20000, 12, 10, 5}}
			for _, g := range []string{"std", "comp", "eq"} {
				tops := all2[g]
				for i, top := range tops {
					h := []vh.Op{{"op": "take", "g": g, "i": i + 1}}
					lo := 0
					if top == 12 {
						lo = -80
					} else if top == 0 {
						lo = -60
					}
					for k := 0; k <= 20; k++ {
						h = append(h, vh.Op{"op": "format", "v": lo*1000 + (top-lo)*1000*k/20}, vh.Op{"op": "back"})
					}
					hs = append(hs, h)
				}
			}
			// every option of long choices
			for n := 2; n <= 40; n++ {
				opts := []any{}
				for j := 0; j < n; j++ {
					opts = append(opts, []any{j, fmt.Sprintf("Option %d", j)})
				}
				h := []vh.Op{{"op": "new", "k": "choice", "opts": opts}}
				for j := 0; j < n; j++ {
					h = append(h, vh.Op{"op": "format", "v": j * 1000}, vh.Op{"op": "back"})
				}
				hs = append(hs, h)
			}
			return hs
		}})
}
