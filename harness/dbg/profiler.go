package main

import (
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/vh"
)

type profSubj struct {
	p      *debug.Profiler
	a      *debug.AudioProcessProfiler
	global bool
	dead   bool
	stops  map[int]func()
	names  map[int]string
	since  map[int]time.Time
	copies map[int]*debug.Measurement
}

var section = regexp.MustCompile(`(?m)^(\S.*):\n  Count:   (\d+)\n  Total:   (\S+)\n  Average: (\S+)\n  Min:     (\S+)\n  Max:     (\S+)\n  Last:    (\S+)\n`)

func ns(s string) int {
	d, err := time.ParseDuration(s)
	if err != nil {
		return -1
	}
	return int(d)
}

func (s *profSubj) report() string {
	if s.a != nil {
		return s.a.AudioReport()
	}
	if s.global {
		return debug.ProfilingReport()
	}
	return s.p.Report()
}

// read is a report as name, count, total, average, least, most, last.
func (s *profSubj) read() []any {
	l := section.FindAllStringSubmatch(s.report(), -1)
	sort.Slice(l, func(i, j int) bool { return l[i][1] < l[j][1] })
	r := []any{}
	for _, m := range l {
		if m[1] == "Performance Report" {
			continue
		}
		n, _ := strconv.Atoi(m[2])
		r = append(r, []any{m[1], n, ns(m[3]), ns(m[4]), ns(m[5]), ns(m[6]), ns(m[7])})
	}
	return r
}

func (s *profSubj) last(name string) int {
	for _, x := range s.read() {
		if y := x.([]any); y[0] == name {
			return y[6].(int)
		}
	}
	return -1
}

func spin(us int) {
	t := time.Now()
	for time.Since(t) < time.Duration(us)*time.Microsecond {
	}
}

func (s *profSubj) start(name string) func() {
	if s.global {
		return debug.Start(name)
	}
	return s.p.Start(name)
}

// done notes how long a section was said to have taken, and how long it took at most.
func (s *profSubj) done(o vh.Op, name string, from time.Time) []int {
	outer := int(time.Since(from))
	got := s.last(name)
	o["got"], o["outer"], o["slow"] = got, outer, false
	if outer > 20000000 {
		s.dead = true
		o["got"], o["outer"], o["slow"] = 0, 0, true
	}
	return []int{}
}

func (s *profSubj) Do(o vh.Op) any {
	o["dead"] = s.dead && o.S("op") != "new"
	if o["dead"] == true {
		o["got"], o["outer"], o["slow"] = 0, 0, false
		return []int{}
	}
	switch o.S("op") {
	case "new":
		*s = profSubj{stops: map[int]func(){}, names: map[int]string{}, since: map[int]time.Time{}, copies: map[int]*debug.Measurement{}}
		switch o.S("kind") {
		case "plain":
			s.p = debug.NewProfiler(o.I("max"))
		case "global":
			debug.DefaultProfiler = debug.NewProfiler(o.I("max"))
			s.p, s.global = debug.DefaultProfiler, true
		case "audio":
			s.a = debug.NewAudioProcessProfiler(float64(o.I("sr")), o.I("bs"))
			s.p = s.a.Profiler
		}
		return []int{}
	case "run":
		name := o.S("name")
		from := time.Now()
		switch o.S("how") {
		case "start":
			f := s.start(name)
			spin(o.I("us"))
			f()
		case "time":
			if s.global {
				debug.Time(name, func() { spin(o.I("us")) })
			} else {
				s.p.Time(name, func() { spin(o.I("us")) })
			}
		case "panic":
			func() {
				defer func() {
					if recover() != "work" {
						panic("the panic of the section was lost")
					}
				}()
				s.p.Time(name, func() { spin(o.I("us")); panic("work") })
			}()
		}
		return s.done(o, name, from)
	case "begin":
		k := o.I("slot")
		s.names[k], s.since[k] = o.S("name"), time.Now()
		s.stops[k] = s.start(o.S("name"))
		return []int{}
	case "end":
		k := o.I("slot")
		spin(o.I("us"))
		s.stops[k]()
		return s.done(o, s.names[k], s.since[k])
	case "report":
		o["got"] = s.read()
		return []int{b2i(strings.Contains(s.report(), "No measurements recorded"))}
	case "copy":
		m, ok := s.p.GetMeasurement(o.S("name"))
		if o.B("all") {
			m, ok = s.p.GetAllMeasurements()[o.S("name")]
		}
		if ok {
			s.copies[o.I("slot")] = m
		} else {
			delete(s.copies, o.I("slot"))
		}
		return []int{b2i(ok)}
	case "ask":
		m := s.copies[o.I("slot")]
		if m == nil {
			return []int{}
		}
		r := []int{int(m.Average())}
		for _, p := range o.IL("pct") {
			r = append(r, int(m.Percentile(float64(p))))
		}
		return r
	case "enable":
		if s.global {
			if o.B("on") {
				debug.EnableProfiling()
			} else {
				debug.DisableProfiling()
			}
		} else {
			s.p.SetEnabled(o.B("on"))
		}
		return []int{b2i(s.p.IsEnabled())}
	case "reset":
		if s.global {
			debug.ResetProfiling()
		} else {
			s.p.Reset()
		}
		return []int{}
	case "load":
		if o.B("update") {
			s.a.UpdateCPULoad()
		}
		v := int(s.a.GetCPULoad()*100 + 0.5)
		r := s.report()
		i := strings.Index(r, "CPU Load:     ")
		f, _ := strconv.ParseFloat(strings.TrimSuffix(strings.TrimSpace(r[i+14:]), "%"), 64)
		o["got"] = v
		return []int{b2i(int(f*100+0.5) == v)}
	case "storm":
		var wg sync.WaitGroup
		name := o.S("name")
		for t := 0; t < o.I("th"); t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < o.I("k"); k++ {
					f := s.start(name)
					spin(k)
					f()
					if k%2 == 0 {
						if m, ok := s.p.GetMeasurement(name); ok {
							m.Percentile(50)
							m.Average()
						}
					}
				}
			}()
		}
		wg.Wait()
		for _, x := range s.read() {
			if y := x.([]any); y[0] == name {
				return []int{y[1].(int)}
			}
		}
		return []int{0}
	}
	panic("harness: unknown op")
}

func genProf(r *rand.Rand, i int, tier string) []vh.Op {
	kind := []string{"plain", "global", "audio"}[r.Intn(3)]
	max := []int{1, 2, 3, 5, 8}[r.Intn(5)]
	srs := [][2]int{{48000, 480}, {44100, 512}, {1000, 1}, {8000, 64}}
	sr := srs[r.Intn(4)]
	ops := []vh.Op{{"op": "new", "kind": kind, "max": max, "sr": sr[0], "bs": sr[1]}}
	names := []string{"a", "two words", "ProcessAudio"}
	open := map[int]bool{}
	storms := i%4 == 0
	for len(ops) < 24 {
		name := names[r.Intn(3)]
		switch w := r.Intn(20); {
		case w < 8:
			ops = append(ops, vh.Op{"op": "run", "name": name, "how": []string{"start", "time", "panic"}[r.Intn(3)], "us": r.Intn(30)})
		case w < 10:
			k := r.Intn(3)
			if !open[k] {
				open[k] = true
				ops = append(ops, vh.Op{"op": "begin", "name": name, "slot": k})
			}
		case w < 12:
			if k := r.Intn(3); open[k] {
				open[k] = r.Intn(5) == 0 // stopped once more
				ops = append(ops, vh.Op{"op": "end", "slot": k, "us": r.Intn(10)})
			}
		case w == 12:
			ops = append(ops, vh.Op{"op": "report"})
		case w == 13:
			ops = append(ops, vh.Op{"op": "copy", "name": name, "slot": r.Intn(2), "all": r.Intn(2) == 0})
		case w < 17:
			ops = append(ops, vh.Op{"op": "ask", "slot": r.Intn(2), "pct": []int{0, r.Intn(101), 50, 100}})
		case w == 17:
			ops = append(ops, vh.Op{"op": "enable", "on": r.Intn(3) > 0})
		case w == 18 && r.Intn(3) == 0:
			ops = append(ops, vh.Op{"op": "reset"})
		case w == 19 && kind == "audio":
			ops = append(ops, vh.Op{"op": "load", "update": r.Intn(3) > 0})
		case w == 19 && storms:
			ops = append(ops, vh.Op{"op": "storm", "name": name, "th": 2 + r.Intn(2), "k": 1 + r.Intn(5)})
			return ops
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "profiler", New: func() vh.Subject { return &profSubj{} }, Gen: genProf, Quick: 400, Thorough: 6000})
}
