package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/vh"
)

type imageSubj struct {
	cm   *analysis.CorrelationMeter
	ps   *analysis.PhaseScope
	vs   *analysis.VectorScope
	sfa  *analysis.StereoFieldAnalyzer
	size int
}

func chanPairs(l []any) (a, b []float64) {
	for _, x := range l {
		v := vh.ToList(x)
		a = append(a, float64(vh.ToInt(v[0]))/4)
		b = append(b, float64(vh.ToInt(v[1]))/4)
	}
	return
}

// turn is an angle in quarter turns.
func turn(x float64) int { return q20x(x * 2 / math.Pi) }

func (s *imageSubj) hold(n int) { s.cm.SetPeakHoldTime((float64(n) + 0.25) / 1000) }

func (s *imageSubj) Do(o vh.Op) any {
	none := []int{}
	switch o.S("op") {
	case "new":
		*s = imageSubj{size: o.I("size")}
		if o.S("kind") == "corr" {
			s.cm = analysis.NewCorrelationMeter(s.size, 1000)
			s.hold(o.I("hold"))
			s.cm.SetAveraging(float64(o.I("avg")) / 8)
			return none
		}
		if o.B("vector") {
			s.vs = analysis.NewVectorScope(s.size)
			return none
		}
		s.ps = analysis.NewPhaseScope(s.size)
		s.ps.SetMode(analysis.PhaseScopeMode(o.I("mode")))
		s.ps.SetPersistence(0.5)
	case "set":
		x := o.I("x")
		switch o.S("n") {
		case "hold":
			s.hold(x)
		case "avg":
			s.cm.SetAveraging(float64(x) / 8)
			s.cm.SetAveraging(1.5)
			s.cm.SetAveraging(-0.5)
		case "mode":
			s.ps.SetMode(analysis.PhaseScopeMode(x))
		case "decay":
			s.ps.SetDecay(float64(x) / 8)
			s.ps.SetDecay(1.25)
			s.ps.SetDecay(-1)
		case "scale":
			s.ps.SetScale(float64(x) / 4)
			s.ps.SetScale(0)
			s.ps.SetScale(-2)
		}
	case "reset":
		switch {
		case s.cm != nil:
			s.cm.Reset()
		case s.vs != nil:
			s.vs.Reset()
		default:
			s.ps.Reset()
		}
	case "ragged":
		a := []float64{3, 2, 1}
		switch {
		case s.cm != nil:
			s.cm.Process(a, a[:2])
		case s.vs != nil:
			s.vs.Process(a[:1], a)
		default:
			s.ps.Process(a[:1], a)
		}
		o["got"] = none
	case "corr":
		a, b := chanPairs(o.L("xs"))
		s.cm.Process(a, b)
		got := []int{q20x(s.cm.GetCorrelation()), q20x(s.cm.GetPeakHold()), phaseIndex(s.cm.GetPhaseStatus()), q20x(s.cm.GetMonoCompatibility())}
		o["got"] = got
		return got
	case "scope":
		a, b := chanPairs(o.L("xs"))
		if s.vs != nil {
			s.vs.Process(a, b)
		} else {
			s.ps.Process(a, b)
		}
	case "points":
		var pts []analysis.PhasePoint
		var br []float64
		if s.vs != nil {
			pts, br, _, _ = s.vs.GetDisplay()
		} else {
			pts, br = s.ps.GetPoints()
		}
		got := make([][]int, len(pts))
		for i, p := range pts {
			got[i] = []int{q20x(p.X), q20x(p.Y), q20x(br[i])}
			// the caller's own copy
			pts[i], br[i] = analysis.PhasePoint{X: 9, Y: 9}, 9
		}
		o["got"] = got
		return got
	case "polar":
		rs, as, br := s.ps.GetPolarData()
		got := make([][]int, len(rs))
		for i := range rs {
			got[i] = []int{q20x(rs[i]), turn(as[i]), q20x(br[i])}
		}
		o["got"] = got
		return got
	case "stats":
		var st analysis.PhaseScopeStats
		if s.vs != nil {
			st = s.vs.GetStatistics()
		} else {
			st = s.ps.GetStatistics()
		}
		got := []int{q20x(st.AverageMid), q20x(st.AverageSide), q20x(st.Width), q20x(st.MaxRadius), turn(st.DominantAngle), q20x(st.PhaseConcentration)}
		o["got"] = got
		return got
	}
	return none
}

func genImage(r *rand.Rand, i int, tier string) []vh.Op {
	corr := i%2 == 0
	vector := r.Intn(4) == 0
	kind, mode := "scope", r.Intn(3)
	if corr {
		kind, vector = "corr", false
	} else if vector {
		mode = 1
	}
	ops := []vh.Op{{"op": "new", "kind": kind, "size": 1 + r.Intn(6), "hold": r.Intn(30), "avg": []int{0, 4, 7, 2}[r.Intn(4)], "mode": mode, "vector": vector}}
	if !corr && !vector {
		ops = append(ops, vh.Op{"op": "set", "n": "decay", "x": 4})
	}
	mk := func(n int) []any {
		l := make([]any, n)
		how := r.Intn(6)
		for j := range l {
			a, b := r.Intn(7)-3, r.Intn(7)-3
			switch how {
			case 0:
				b = a
			case 1:
				b = -a
			case 2:
				a = 0
			case 3:
				a, b = 0, 0
			}
			l[j] = []int{a, b}
		}
		return l
	}
	for len(ops) < 18 {
		if r.Intn(10) == 0 {
			ops = append(ops, vh.Op{"op": []string{"reset", "ragged"}[r.Intn(2)]})
			continue
		}
		if corr {
			if r.Intn(6) == 0 {
				n := []string{"hold", "avg"}[r.Intn(2)]
				x := r.Intn(9)
				if n == "hold" {
					x = r.Intn(30)
				}
				ops = append(ops, vh.Op{"op": "set", "n": n, "x": x})
			}
			ops = append(ops, vh.Op{"op": "corr", "xs": mk(r.Intn(8))})
			continue
		}
		if !vector && r.Intn(6) == 0 {
			n := []string{"mode", "decay", "scale"}[r.Intn(3)]
			ops = append(ops, vh.Op{"op": "set", "n": n, "x": map[string]int{"mode": r.Intn(3), "decay": r.Intn(9), "scale": 1 + r.Intn(8)}[n]})
			continue
		}
		ops = append(ops, vh.Op{"op": "scope", "xs": mk(r.Intn(5))})
		switch w := r.Intn(3); {
		case w == 0:
			ops = append(ops, vh.Op{"op": "points"})
		case w == 1 && !vector:
			ops = append(ops, vh.Op{"op": "polar"})
		default:
			ops = append(ops, vh.Op{"op": "stats"})
		}
	}
	return ops
}

// phaseIndex gives the status, if its text is right.
func phaseIndex(p analysis.PhaseStatus) int {
	if p.String() != []string{"In Phase", "Mostly In Phase", "Partially Correlated", "Mostly Out of Phase", "Out of Phase", "Unknown"}[min(uint(p), 5)] {
		return -9
	}
	return int(p)
}

func init() {
	vh.Register(&vh.Domain{Name: "image", New: func() vh.Subject { return &imageSubj{} }, Gen: genImage, Quick: 1200, Thorough: 12000})
}
