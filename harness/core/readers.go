package main

import (
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"strconv"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/vh"
)

// A meter that one thread feeds and others read.
type meter struct {
	feed  func(l, r []float64)
	reset func()          // nil if there is none
	again func()          // settings made again as they are
	get   []func() string // what it shows, to the last bit
	group []int           // figures of one group are of one moment
}

// text has a number to the last bit.
func text(x ...float64) string {
	var b strings.Builder
	for _, v := range x {
		b.WriteString(strconv.FormatUint(math.Float64bits(v), 16))
		b.WriteByte(' ')
	}
	return b.String()
}

func num(fs ...func() float64) []func() string {
	r := []func() string{}
	for _, f := range fs {
		r = append(r, func() string { return text(f()) })
	}
	return r
}

func points(p []analysis.PhasePoint, b []float64) string {
	v := []float64{}
	for _, q := range p {
		v = append(v, q.X, q.Y)
	}
	return text(v...) + "/" + text(b...)
}

func phaseStats(s analysis.PhaseScopeStats) string {
	return text(s.AverageMid, s.AverageSide, s.Width, s.MaxRadius, s.PhaseConcentration, s.DominantAngle)
}

func newMeter(kind string, size int) *meter {
	m := &meter{}
	switch kind {
	case "peak":
		x := analysis.NewPeakMeter(1000)
		x.SetHoldTime(0.02)
		x.SetDecayRate(200)
		m.feed, m.reset = func(l, r []float64) { x.Process(l) }, x.Reset
		m.again = func() { x.SetHoldTime(0.02); x.SetDecayRate(200) }
		m.get = num(x.GetPeak, x.GetPeakDB, x.GetHold, x.GetHoldDB)
	case "rms":
		x := analysis.NewRMSMeter(size)
		m.feed, m.reset = func(l, r []float64) { x.Process(l) }, x.Reset
		m.get = num(x.GetRMS, x.GetRMSDB)
	case "loud":
		x := analysis.NewLUFSMeter(1000, 2)
		m.feed = func(l, r []float64) {
			b := []float64{}
			for len(l) > 0 && len(b) < 300 {
				for i := range l {
					b = append(b, l[i], r[i])
				}
			}
			x.Process(b)
		}
		m.reset = x.Reset
		m.get = num(x.GetMomentaryLUFS, x.GetShortTermLUFS, x.GetIntegratedLUFS, x.GetLoudnessRange)
	case "corr":
		x := analysis.NewCorrelationMeter(size, 1000)
		x.SetAveraging(0.5)
		x.SetPeakHoldTime(0.02)
		m.feed, m.reset = x.Process, x.Reset
		m.again = func() { x.SetAveraging(0.5); x.SetPeakHoldTime(0.02) }
		m.get = append(num(x.GetCorrelation, x.GetPeakHold, x.GetMonoCompatibility), func() string { return x.GetPhaseStatus().String() })
	case "balance":
		x := analysis.NewBalanceMeter(size)
		m.feed = x.Process
		m.get = num(x.GetBalance, x.GetBalanceDB)
	case "width":
		x := analysis.NewStereoWidthMeter(size)
		m.feed = x.Process
		m.get = num(x.GetWidth, x.GetWidthDB)
	case "field":
		x := analysis.NewStereoFieldAnalyzer(size, 1000)
		m.feed = x.Process
		m.get = append(num(
			func() float64 { return x.GetAnalysis().Correlation }, func() float64 { return x.GetAnalysis().MonoCompatibility },
			func() float64 { return x.GetAnalysis().Balance }, func() float64 { return x.GetAnalysis().Width }, func() float64 { return x.GetAnalysis().WidthDB }),
			func() string { return x.GetAnalysis().PhaseStatus.String() })
	case "spectrum":
		x := analysis.NewSpectrumAnalyzer(16, 1600, analysis.WindowFunc(size%3))
		x.SetHopSize(4)
		x.SetAveraging(analysis.AveragingMode(size%4), 3)
		x.SetSmoothing(0.5)
		x.SetFrequencyRange(100, 500)
		m.feed, m.reset = func(l, r []float64) { x.Process(l) }, x.Reset
		m.again = func() { x.SetHopSize(4); x.SetSmoothing(0.5); x.SetFrequencyRange(100, 500) }
		vec := func(f func() []float64) func() string { return func() string { return text(f()...) } }
		m.get = []func() string{vec(x.GetSpectrum), vec(x.GetSpectrumDB), vec(x.GetSpectrumInRange), vec(x.GetSpectrumDBInRange),
			func() string { return text(x.GetPeakFrequency()) }, func() string { return text(x.GetBandEnergy(50, 400)) },
			func() string { return text(x.GetOctaveBands([]float64{125, 250, 500})...) }}
	case "scope", "vector":
		if kind == "vector" {
			v := analysis.NewVectorScope(size)
			m.feed, m.reset = v.Process, v.Reset
			m.get = []func() string{func() string { p, b, g, _ := v.GetDisplay(); return points(p, b) + points(g, nil) }, func() string { return phaseStats(v.GetStatistics()) }}
			break
		}
		x := analysis.NewPhaseScope(size)
		x.SetMode(analysis.ModeGoniometer)
		x.SetScale(2)
		m.feed, m.reset = x.Process, x.Reset
		m.again = func() { x.SetMode(analysis.ModeGoniometer); x.SetScale(2); x.SetDecay(0.95); x.SetPersistence(0.8) }
		m.get = []func() string{func() string { return points(x.GetPoints()) },
			func() string { a, b, c := x.GetPolarData(); return text(a...) + "/" + text(b...) + "/" + text(c...) },
			func() string { return phaseStats(x.GetStatistics()) }}
	}
	for g := range m.get {
		if kind != "field" {
			g = 0
		}
		m.group = append(m.group, g+1)
	}
	return m
}

type readersSubj struct{}

func (readersSubj) Do(o vh.Op) any {
	kind, size, seed := o.S("kind"), o.I("size"), o.I("seed")
	feeds := o.IL("feeds")
	apply := func(m *meter, k int) {
		if feeds[k] == 0 {
			if m.reset != nil {
				m.reset()
			}
			return
		}
		r := rand.New(rand.NewSource(int64(seed*100 + k)))
		n := feeds[k] - 1
		l, q := make([]float64, n), make([]float64, n)
		a, b := r.Float64(), r.Float64()
		for i := range l {
			l[i], q[i] = a*(2*r.Float64()-1), b*(2*r.Float64()-1)
		}
		m.feed(l, q)
	}
	ids := map[string]int{}
	id := func(s string) int {
		if _, ok := ids[s]; !ok {
			ids[s] = len(ids) + 1
		}
		return ids[s]
	}
	// what it shows after each of them, alone
	alone := newMeter(kind, size)
	after := []any{}
	for k := 0; k <= len(feeds); k++ {
		if k > 0 {
			apply(alone, k-1)
		}
		row := []int{}
		for _, g := range alone.get {
			row = append(row, id(g()))
		}
		after = append(after, row)
	}
	// and with others looking
	m := newMeter(kind, size)
	stamped, watch := o.B("stamped"), o.B("watch")
	var begun, ended atomic.Int32
	type read struct {
		g, lo, hi int
		s         string
	}
	var ready, done sync.WaitGroup
	var gate, over atomic.Bool
	threads := o.L("reads")
	seen := make([][]*read, len(threads))
	for t := range threads {
		for _, g := range vh.ToList(threads[t]) {
			n := vh.ToInt(g)
			if n > 0 {
				n = (n-1)%len(m.get) + 1
			}
			seen[t] = append(seen[t], &read{g: n, hi: len(feeds)})
		}
		ready.Add(1)
		done.Add(1)
		go func(t int, l []*read, s int) {
			defer done.Done()
			ready.Done()
			for !gate.Load() {
			}
			one := func(x *read) {
				if stamped {
					x.lo = int(ended.Load())
				}
				if x.g > 0 {
					x.s = m.get[x.g-1]()
				} else if m.again != nil {
					m.again()
				}
				if stamped {
					x.hi = int(begun.Load())
				}
			}
			if watch {
				// over and over; only what has changed is kept
				was := make([]string, len(m.get)+1)
				kept := seen[t][:0]
				for n := 0; n < 4000 && !over.Load() && len(kept) < 50; n++ {
					x := &read{g: l[n%len(l)].g, hi: len(feeds)}
					if one(x); x.g > 0 && x.s != was[x.g] {
						was[x.g] = x.s
						kept = append(kept, x)
					}
				}
				seen[t] = kept
				return
			}
			for i, x := range l {
				if (s>>uint(i%16))&1 == 1 {
					runtime.Gosched()
				}
				if stamped {
					// somewhere about a block of its own
					for n, at := 0, int32((i*len(feeds)+s%7)/len(l)+1); begun.Load() < at && n < 5000; n++ {
						if n > 2000 {
							runtime.Gosched()
						}
					}
				}
				one(x)
			}
		}(t, append([]*read{}, seen[t]...), seed*(t+7))
	}
	ready.Wait()
	gate.Store(true)
	for k := range feeds {
		if stamped {
			begun.Store(int32(k + 1))
			for n := seed >> uint(k%8) & 255; n > 0; n-- {
				begun.Load()
			}
		}
		apply(m, k)
		if stamped {
			ended.Store(int32(k + 1))
		}
		if (seed>>uint(k%16))&1 == 1 {
			runtime.Gosched()
		}
	}
	over.Store(true)
	done.Wait()
	reads := []any{}
	for _, l := range seen {
		row := []any{}
		for _, x := range l {
			y := 0
			if x.g > 0 {
				y = id(x.s)
			}
			row = append(row, map[string]any{"g": x.g, "lo": x.lo, "hi": x.hi, "y": y})
		}
		reads = append(reads, row)
	}
	last := []int{}
	for _, g := range m.get {
		last = append(last, id(g()))
	}
	o["after"], o["seen"], o["group"], o["last"] = after, reads, m.group, last
	return []int{len(feeds)}
}

func genReaders(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	kinds := []string{"peak", "rms", "loud", "corr", "balance", "width", "field", "spectrum", "scope", "vector"}
	for len(ops) < 6 {
		feeds := []int{}
		for n := 4 + r.Intn(8); len(feeds) < n; {
			f := 1 + r.Intn(40)
			if r.Intn(8) == 0 {
				f = 0
			}
			feeds = append(feeds, f)
		}
		reads := []any{}
		for t := 1 + r.Intn(2); t > 0; t-- {
			l := []int{}
			for n := 6 + r.Intn(10); len(l) < n; {
				g := 1 + r.Intn(28)
				if r.Intn(6) == 0 {
					g = 0
				}
				l = append(l, g)
			}
			reads = append(reads, l)
		}
		ops = append(ops, vh.Op{"op": "round", "kind": kinds[r.Intn(len(kinds))], "size": 1 + r.Intn(24), "seed": r.Intn(1 << 16), "stamped": r.Intn(3) > 0, "watch": r.Intn(2) == 0, "feeds": feeds, "reads": reads})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "readers", New: func() vh.Subject { return readersSubj{} }, Gen: genReaders, Quick: 500, Thorough: 5000})
}
