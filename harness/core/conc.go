package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/vh"
)

// slowEvent takes its time to be looked at, so that others come in between.
type slowEvent struct{ midi.NoteOnEvent }

func (e slowEvent) SampleOffset() int32 {
	runtime.Gosched()
	return e.Offset
}

func cev(id, off int, slow bool) midi.Event {
	e := midi.NoteOnEvent{BaseEvent: midi.BaseEvent{Offset: int32(off)}, NoteNumber: uint8(id)}
	if slow {
		return slowEvent{e}
	}
	return e
}

func cids(l []midi.Event) []int {
	r := make([]int, len(l))
	for i, e := range l {
		switch e := e.(type) {
		case midi.NoteOnEvent:
			r[i] = int(e.NoteNumber)
		case slowEvent:
			r[i] = int(e.NoteNumber)
		default:
			r[i] = -1
		}
	}
	return r
}

type concSubj struct{}

type caller func(f string, a []int) []int

func queueCaller(slow bool) caller {
	q := midi.NewEventQueue()
	return func(f string, a []int) []int {
		switch f {
		case "add":
			q.Add(cev(a[0], a[1], slow))
		case "addm":
			q.AddMultiple([]midi.Event{cev(a[0], a[1], slow), cev(a[2], a[3], slow)})
		case "range":
			return cids(q.GetEventsInRange(int32(a[0]), int32(a[1])))
		case "all":
			return cids(q.GetAllEvents())
		case "size":
			return []int{q.Size()}
		case "empty":
			return []int{b2i(q.IsEmpty())}
		case "clear":
			q.Clear()
		case "remove":
			q.RemoveProcessedEvents(int32(a[0]))
		default:
			panic("harness: " + f)
		}
		return []int{}
	}
}

func registryCaller(plain bool) caller {
	ar := param.NewAutoRegistry()
	r := ar.Registry
	if plain {
		r = param.NewRegistry()
	}
	tag := func(p *param.Parameter) int {
		if p == nil {
			return 0
		}
		return int(p.StepCount)
	}
	mk := func(a []int) *param.Parameter {
		return &param.Parameter{ID: uint32(a[2]), Name: string(rune('a' + a[1])), StepCount: int32(a[0])}
	}
	return func(f string, a []int) []int {
		switch f {
		case "register":
			p := mk(a)
			if ar.Register(p) != nil {
				return []int{-1}
			}
			return []int{int(p.ID)}
		case "withid":
			p := mk(a)
			if ar.RegisterWithID(uint32(a[2]), p) != nil {
				return []int{-1}
			}
			return []int{int(p.ID)}
		case "reserve":
			return []int{int(ar.Reserve(uint32(a[0])))}
		case "add":
			r.Add(mk(a))
			return []int{}
		case "get":
			return []int{tag(r.Get(uint32(a[0])))}
		case "index":
			return []int{tag(r.GetByIndex(int32(a[0])))}
		case "count":
			return []int{int(r.Count())}
		case "all":
			l := []int{}
			for _, p := range r.All() {
				l = append(l, tag(p))
			}
			return l
		case "byname":
			return []int{tag(ar.GetByName(string(rune('a' + a[0]))))}
		case "id":
			if id, ok := ar.GetID(string(rune('a' + a[0]))); ok {
				return []int{int(id)}
			}
			return []int{-1}
		case "clear":
			ar.Clear()
			return []int{}
		}
		panic("harness: " + f)
	}
}

func valueCaller() caller {
	p := param.New(1, "p").Range(0, 64).Build()
	return func(f string, a []int) []int {
		if f == "set" {
			p.SetValue(float64(a[0]) / 64)
			return []int{}
		}
		return []int{exact(p.GetValue() * 64)}
	}
}

func (concSubj) Do(o vh.Op) any {
	var call caller
	switch o.S("kind") {
	case "queue":
		call = queueCaller(o.B("slow"))
	case "registry":
		call = registryCaller(o.B("plain"))
	case "value":
		call = valueCaller()
	}
	stamped := o.B("stamped")
	type rec struct {
		th, inv, ret int
		f            string
		a, r         []int
	}
	var clock atomic.Int64
	clock.Store(1)
	threads := map[int][]*rec{}
	order := []*rec{}
	max := 0
	for _, c := range o.L("calls") {
		m := vh.ToOp(c)
		x := &rec{th: vh.ToInt(m["th"]), f: m["f"].(string), a: vh.Op(m).IL("a")}
		threads[x.th] = append(threads[x.th], x)
		order = append(order, x)
		if x.th > max {
			max = x.th
		}
	}
	// thread 0 comes before all others
	for _, x := range threads[0] {
		x.r = call(x.f, x.a)
	}
	var ready, done sync.WaitGroup
	var gate atomic.Bool
	for t := 1; t <= max; t++ {
		ready.Add(1)
		done.Add(1)
		go func(l []*rec, seed int) {
			defer done.Done()
			ready.Done()
			for !gate.Load() {
			}
			for i, x := range l {
				if (seed>>uint(i))&1 == 1 {
					runtime.Gosched()
				}
				if stamped {
					x.inv = int(clock.Add(1))
				}
				x.r = call(x.f, x.a)
				if stamped {
					x.ret = int(clock.Add(1))
				}
			}
		}(threads[t], o.I("seed")*(t+7))
	}
	ready.Wait()
	gate.Store(true)
	done.Wait()
	calls := []any{}
	for _, x := range order {
		if !stamped || x.th == 0 {
			x.inv, x.ret = 0, 1<<20
		}
		calls = append(calls, map[string]any{"th": x.th, "inv": x.inv, "ret": x.ret, "f": x.f, "a": x.a, "r": x.r})
	}
	o["calls"] = calls
	return []int{len(calls)}
}

func genConc(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{}
	for len(ops) < 12 {
		kind := []string{"queue", "queue", "registry", "registry", "value"}[r.Intn(5)]
		plain := r.Intn(2) == 0
		calls := []any{}
		id := 0
		one := func(th int) {
			id++
			c := map[string]any{"th": th}
			switch kind {
			case "queue":
				w := r.Intn(12)
				if th == 0 {
					w = 0
				}
				switch {
				case w < 5:
					c["f"], c["a"] = "add", []int{id, r.Intn(8)}
				case w == 5:
					c["f"], c["a"] = "addm", []int{id, r.Intn(8), id + 60, r.Intn(8)}
				case w < 8:
					a := r.Intn(6)
					c["f"], c["a"] = "range", []int{a, a + r.Intn(7)}
				case w == 8:
					c["f"], c["a"] = "all", []int{}
				case w == 9:
					c["f"], c["a"] = []string{"size", "empty"}[r.Intn(2)], []int{}
				case w == 10:
					c["f"], c["a"] = "remove", []int{r.Intn(6)}
				default:
					c["f"], c["a"] = []string{"clear", "range"}[r.Intn(2)], []int{0, 9}
				}
			case "registry":
				if plain {
					switch r.Intn(6) {
					case 0, 1, 2:
						c["f"], c["a"] = "add", []int{id, 0, r.Intn(5)}
					case 3:
						c["f"], c["a"] = []string{"get", "index"}[r.Intn(2)], []int{r.Intn(5)}
					case 4:
						c["f"], c["a"] = "count", []int{}
					default:
						c["f"], c["a"] = "all", []int{}
					}
				} else {
					switch r.Intn(9) {
					case 0, 1, 2:
						c["f"], c["a"] = "register", []int{id, r.Intn(5), r.Intn(2) * r.Intn(4)}
					case 3:
						c["f"], c["a"] = "withid", []int{id, r.Intn(5), r.Intn(5)}
					case 4:
						c["f"], c["a"] = "reserve", []int{1 + r.Intn(2)}
					case 5:
						c["f"], c["a"] = []string{"get", "index"}[r.Intn(2)], []int{r.Intn(5)}
					case 6:
						c["f"], c["a"] = []string{"byname", "id"}[r.Intn(2)], []int{r.Intn(5)}
					case 7:
						c["f"], c["a"] = []string{"all", "count"}[r.Intn(2)], []int{}
					default:
						c["f"], c["a"] = []string{"clear", "all"}[r.Intn(2)], []int{}
					}
				}
			case "value":
				if r.Intn(2) == 0 {
					c["f"], c["a"] = "set", []int{r.Intn(72) - 4}
				} else {
					c["f"], c["a"] = "get", []int{}
				}
			}
			calls = append(calls, c)
		}
		for k := r.Intn(5); k > 0; k-- {
			one(0)
		}
		th := 2 + r.Intn(2)
		for k := 0; k < 4; k++ {
			for t := 1; t <= th; t++ {
				one(t)
			}
		}
		ops = append(ops, vh.Op{"op": "round", "kind": kind, "plain": plain, "slow": r.Intn(2) == 0, "stamped": r.Intn(3) > 0, "seed": r.Intn(1 << 16), "calls": calls})
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "conc", New: func() vh.Subject { return concSubj{} }, Gen: genConc, Quick: 400, Thorough: 4000})
}
