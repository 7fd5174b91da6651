package main

import (
	"math"
	"math/rand"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/vh"
)

// q20x is q20 with infinities and what is no number told apart.
func q20x(x float64) int { return qx(x, 1<<20) }

// qdb is a level in decibels in 1/65536.
func qdb(x float64) int { return qx(x, 65536) }

func qx(x, k float64) int {
	y := math.Round(x * k)
	switch {
	case math.IsNaN(y):
		return -999999999
	case y >= 1<<29:
		return 1 << 29
	case y <= -(1 << 29):
		return -(1 << 29)
	}
	return int(y)
}

func tenths(xs []int) []float64 {
	r := make([]float64, len(xs))
	for i, x := range xs {
		r[i] = float64(x) / 10
	}
	return r
}

type meterSubj struct {
	sr  float64
	pm  *analysis.PeakMeter
	rm  *analysis.RMSMeter
	bm  *analysis.BalanceMeter
	wm  *analysis.StereoWidthMeter
	sfa *analysis.StereoFieldAnalyzer
}

func (s *meterSubj) hold(n int) { s.pm.SetHoldTime((float64(n) + 0.25) / s.sr) }

// half makes the level fall to a half in n samples.
func (s *meterSubj) half(n int) { s.pm.SetDecayRate(20 * math.Log10(2) * s.sr / float64(n)) }

func (s *meterSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		*s = meterSubj{}
		switch o.S("kind") {
		case "peak":
			s.sr = float64(o.I("sr"))
			s.pm = analysis.NewPeakMeter(s.sr)
			s.hold(o.I("hold"))
			s.half(o.I("half"))
		case "rms":
			s.rm = analysis.NewRMSMeter(o.I("size"))
		case "balance", "width":
			if o.B("whole") {
				s.sfa = analysis.NewStereoFieldAnalyzer(4, 48000)
			}
			s.bm = analysis.NewBalanceMeter(4)
			s.wm = analysis.NewStereoWidthMeter(4)
		}
		return []int{}
	case "set":
		if o.S("n") == "hold" {
			s.hold(o.I("x"))
		} else {
			s.half(o.I("x"))
		}
		return []int{}
	case "reset":
		if s.pm != nil {
			s.pm.Reset()
		} else {
			s.rm.Reset()
		}
		return []int{}
	}
	xs := tenths(o.IL("xs"))
	var got []int
	switch o.S("op") {
	case "peak":
		s.pm.Process(xs)
		got = []int{q20x(s.pm.GetPeak()), q20x(s.pm.GetHold()), qdb(s.pm.GetPeakDB()), qdb(s.pm.GetHoldDB())}
	case "rms":
		s.rm.Process(xs)
		got = []int{q20x(s.rm.GetRMS()), qdb(s.rm.GetRMSDB())}
	case "balance":
		s.bm.Process(xs, tenths(o.IL("ys")))
		got = []int{q20x(s.bm.GetBalance()), qdb(s.bm.GetBalanceDB())}
		if s.sfa != nil {
			s.sfa.Process(xs, tenths(o.IL("ys")))
			if s.sfa.GetAnalysis().Balance != s.bm.GetBalance() {
				got[0] = 1 << 25 // not the same meter
			}
		}
	case "width":
		if s.sfa != nil {
			s.sfa.Process(xs, tenths(o.IL("ys")))
			a := s.sfa.GetAnalysis()
			got = []int{q20x(a.Width), qdb(a.WidthDB)}
			break
		}
		s.wm.Process(xs, tenths(o.IL("ys")))
		got = []int{q20x(s.wm.GetWidth()), qdb(s.wm.GetWidthDB())}
	}
	o["got"] = got
	return got
}

func genMeters(r *rand.Rand, i int, tier string) []vh.Op {
	kind := []string{"peak", "rms", "balance", "width"}[i%4]
	ops := []vh.Op{{"op": "new", "kind": kind, "sr": []int{1000, 44100, 48000, 96000}[r.Intn(4)], "hold": r.Intn(40),
		"half": 1 << r.Intn(6), "size": 1 + r.Intn(6), "whole": r.Intn(2) == 0}}
	loud := 10
	mk := func(n int) []int {
		xs := make([]int, n)
		if r.Intn(4) == 0 {
			return xs
		}
		for i := range xs {
			xs[i] = r.Intn(2*loud+1) - loud
		}
		return xs
	}
	for len(ops) < 16 {
		if r.Intn(8) == 0 && (kind == "peak" || kind == "rms") {
			ops = append(ops, vh.Op{"op": "reset"})
			continue
		}
		switch kind {
		case "peak":
			if r.Intn(8) == 0 {
				n := []string{"hold", "half"}[r.Intn(2)]
				x := r.Intn(40)
				if n == "half" {
					x = 1 << r.Intn(6)
				}
				ops = append(ops, vh.Op{"op": "set", "n": n, "x": x})
				continue
			}
			loud = []int{10, 10, 2, 5, 30, 1}[r.Intn(6)]
			xs := mk(r.Intn(12))
			if r.Intn(3) == 0 && len(xs) > 0 {
				xs[r.Intn(len(xs))] = 10
			}
			ops = append(ops, vh.Op{"op": "peak", "xs": xs})
		case "rms":
			ops = append(ops, vh.Op{"op": "rms", "xs": mk(r.Intn(9))})
		default:
			n := r.Intn(7)
			xs, ys := mk(n), mk(n)
			if len(ops) == 1 && i%7 == 0 {
				xs, ys = make([]int, n), make([]int, n) // nothing yet
			}
			switch r.Intn(5) {
			case 0:
				copy(ys, xs)
			case 1:
				for i := range ys {
					ys[i] = -xs[i]
				}
			case 2:
				for i := range ys {
					ys[i] = 0
				}
			}
			ops = append(ops, vh.Op{"op": kind, "xs": xs, "ys": ys})
			if kind == "width" && i%3 == 0 || kind == "balance" && i%5 == 0 {
				// a source that stays at one side
				for len(ops) < 8 {
					x := mk(3)
					y := make([]int, 3)
					if kind == "width" {
						for j := range y {
							y[j] = -x[j]
						}
					}
					ops = append(ops, vh.Op{"op": kind, "xs": x, "ys": y})
				}
			}
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "meters", New: func() vh.Subject { return &meterSubj{} }, Gen: genMeters, Quick: 1200, Thorough: 12000})
}
