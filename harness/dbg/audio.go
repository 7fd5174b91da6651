package main

import (
	"bytes"
	"math"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/dsp/debug"
	fdebug "github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/vh"
)

const nan = 999999

type audioSubj struct{ a *fdebug.AudioAnalyzer }

func buf32(l []int, scale int) []float32 {
	r := make([]float32, len(l))
	for i, x := range l {
		r[i] = float32(x) / float32(scale)
		if x == nan {
			r[i] = float32(math.NaN())
		}
	}
	return r
}

func fx(x float64, k float64) int {
	y := math.Round(x * k)
	if math.IsNaN(y) || math.Abs(y) > 1<<29 {
		return -999999999
	}
	return int(y)
}

// nums are the numbers of a text.
var number = regexp.MustCompile(`[-+]?(NaN|\d+\.\d+|\d+)`)

func nums(s string, k float64) []int {
	r := []int{}
	for _, x := range number.FindAllString(s, -1) {
		if f, err := strconv.ParseFloat(x, 64); err == nil {
			r = append(r, fx(f, k))
		}
	}
	return r
}

// logged is what goes to the log at a level.
func logged(level string, f func()) []string {
	var w bytes.Buffer
	fdebug.SetOutput(&w)
	fdebug.SetFlags(fdebug.FlagLevel)
	fdebug.SetLevel(fdebug.LogLevelDebug)
	defer fdebug.SetOutput(os.Stderr)
	f()
	r := []string{}
	for _, l := range strings.Split(strings.TrimSuffix(w.String(), "\n"), "\n") {
		if i := strings.Index(l, level+"] "); i >= 0 {
			r = append(r, l[i+len(level)+2:])
		}
	}
	return r
}

func (s *audioSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "analyze":
		b := buf32(o.IL("b"), o.I("scale"))
		var r fdebug.AnalysisResult
		if o.B("global") {
			r = fdebug.AnalyzeBuffer(b)
		} else {
			if s.a == nil {
				s.a = fdebug.NewAudioAnalyzer()
			}
			r = s.a.Analyze(b)
		}
		k := float64(o.I("scale"))
		o["rms"], o["dc"] = fx(float64(r.RMS)*k, 1024), fx(float64(r.DC)*k, 1024)
		return []int{fx(float64(r.Peak), k), b2i(r.Clipping), r.ClippedSamples, b2i(r.Silent), b2i(r.HasNaN), r.NaNCount, r.ZeroCrossings}
	case "check":
		r := [][]int{}
		said := fdebug.CheckBuffer(buf32(o.IL("b"), 64), "buf")
		if o.B("log") { // as warnings
			said = logged("WARN", func() { fdebug.CheckAudioBuffer(buf32(o.IL("b"), 64), "buf") })
		}
		for _, x := range said {
			if !strings.HasPrefix(x, "buf: ") {
				return "no name"
			}
			k, f := 0, 1.0
			switch {
			case strings.Contains(x, "NaN"):
				k = 1
				x = strings.Replace(x, "NaN", "", 1)
			case strings.Contains(x, "Clipping"):
				k = 2
			case strings.Contains(x, "DC"):
				k, f = 3, 1000
			case strings.Contains(x, "Peak"):
				k, f = 4, 1000
				x = strings.Replace(x, "1.0", "", 1)
			}
			n := nums(x, f)
			if len(n) != 1 {
				return x
			}
			r = append(r, []int{k, n[0]})
		}
		o["got"] = r
		return []int{}
	case "stats":
		b := buf32(o.IL("b"), 64)
		f := func() { fdebug.LogBufferStats(b, "buf") }
		info, warn, fail := logged("INFO", f), logged("WARN", f), logged("ERROR", f)
		g := []int{}
		for i, k := range []string{"'buf'", "Samples", "Peak", "RMS", "DC"} {
			if i >= len(info) || !strings.Contains(info[i], k) {
				return info
			}
			if i > 0 {
				g = append(g, nums(info[i], []float64{1, 1, 1000, 1000, 1e6}[i])[0])
			}
		}
		g = append(g, b2i(len(info) == 6 && strings.Contains(info[5], "Silent")), len(info))
		for i, l := range [][]string{warn, fail} {
			if len(l) > 1 || len(l) == 1 && !strings.Contains(l[0], []string{"Clipping", "NaN"}[i]) {
				return l
			}
			g = append(g, 0)
			if len(l) == 1 {
				g[len(g)-1] = nums(strings.Replace(l[0], "NaN", "", 1), 1)[0]
			}
		}
		o["got"] = g
		return []int{}
	case "compare":
		o["avg"], o["got"] = 0, []int{}
		x := fdebug.CompareBuffers(buf32(o.IL("a"), 64), buf32(o.IL("b"), 64), float32(o.I("tol"))/64)
		switch {
		case strings.Contains(x, "length"):
			return append([]int{0}, nums(x, 1)...)
		case strings.Contains(x, "identical"):
			return []int{1}
		}
		l := strings.Split(x, "\n")
		a := nums(l[1], 10)
		m := nums(l[2], 64*64)
		o["avg"] = nums(l[3], 64*64)[0]
		g := []int{2, a[0] / 10, a[1] / 10, a[2], m[0] / 64, m[1] / 4096, nums(l[4], 64)[0]}
		o["got"] = g
		return g
	case "print":
		x := fdebug.PrintBuffer(buf32(o.IL("b"), 64), o.I("width"))
		if strings.HasPrefix(x, "Empty") {
			return [][]int{{-1}}
		}
		if strings.HasPrefix(x, "Silent") {
			return [][]int{{-2}}
		}
		r := [][]int{}
		for i, l := range strings.Split(strings.TrimSuffix(x, "\n"), "\n") {
			if i == 0 {
				r = append(r, nums(l, 1000))
				continue
			}
			up, down, mid, n := 0, 0, 0, 0
			for _, c := range l {
				switch {
				case c == '-' && n == 20:
					mid = 1
				case c == '█' && n < 20:
					up++
				case c == '█' && n > 20:
					down++
				}
				n++
			}
			r = append(r, []int{up, down, mid, n})
		}
		return r
	case "dump":
		x := fdebug.DumpBuffer(buf32(o.IL("b"), 64), o.I("max"))
		if strings.HasPrefix(x, "Empty") {
			return [][]int{{-1}}
		}
		l := strings.Split(strings.TrimSuffix(x, "\n"), "\n")
		r := [][]int{nums(l[0], 1)}
		for _, y := range l[3:] {
			if strings.HasPrefix(y, "...") {
				r = append(r, append([]int{-2}, nums(y[4:], 1)...))
				continue
			}
			f := strings.SplitN(y, " | ", 4)
			i, _ := strconv.Atoi(strings.TrimSpace(f[0]))
			v, _ := strconv.ParseFloat(f[1], 64)
			h, _ := strconv.ParseUint(strings.TrimPrefix(f[2], "0x"), 16, 32)
			bar := -1
			if k := strings.Index(f[3], "|"); k >= 0 && strings.Count(f[3], "|") == 1 {
				bar = k
			}
			r = append(r, []int{i, fx(v, 64*64) / 64, fx(float64(math.Float32frombits(uint32(h))), 64), bar, len(f[3])})
		}
		return r
	}
	panic("harness: unknown op")
}

func genAudio(r *rand.Rand, i int, tier string) []vh.Op {
	b := func(n, m int, odd bool) []int {
		l := make([]int, n)
		base := 0
		if r.Intn(3) == 0 {
			base = r.Intn(2*m+1) - m
		}
		for i := range l {
			switch r.Intn(8) {
			case 0:
				l[i] = 0
			case 1:
				l[i] = []int{-64, 64, -63, 63, 65}[r.Intn(5)]
				if m < 63 {
					l[i] = m
				}
			case 2:
				l[i] = base
				if odd && r.Intn(2) == 0 {
					l[i] = nan
				}
			default:
				l[i] = r.Intn(2*m+1) - m
				if base != 0 {
					l[i] = base
				}
			}
		}
		return l
	}
	ops := []vh.Op{}
	for len(ops) < 12 {
		switch r.Intn(5) {
		case 0:
			o := vh.Op{"op": "analyze", "global": r.Intn(2) == 0, "scale": 64, "b": b(r.Intn(14), 70, true)}
			if r.Intn(3) == 0 {
				o["scale"], o["b"] = 65536, b(r.Intn(14), 9, true)
			}
			ops = append(ops, o)
		case 1:
			ops = append(ops, vh.Op{"op": "check", "b": b(r.Intn(14), []int{1, 40, 90}[r.Intn(3)], true), "log": r.Intn(2) == 0})
			if r.Intn(3) == 0 {
				ops = append(ops, vh.Op{"op": "stats", "b": b(r.Intn(14), []int{1, 40, 90, 0}[r.Intn(4)], true)})
			}
		case 2:
			x := b(r.Intn(10), 70, true)
			y := append([]int{}, x...)
			for k := range y {
				if r.Intn(3) == 0 {
					y[k] = []int{nan, y[k] + r.Intn(9) - 4, r.Intn(64)}[r.Intn(3)]
				}
			}
			if r.Intn(6) == 0 {
				y = y[:r.Intn(len(y)+1)]
			}
			for k := range y {
				if y[k] > nan-10 {
					y[k] = nan
				}
			}
			ops = append(ops, vh.Op{"op": "compare", "a": x, "b": y, "tol": r.Intn(6)})
		case 3:
			w := []int{1, 2, 3, 8, 80, 0, -1}[r.Intn(7)]
			n := r.Intn(12)
			if w > 0 && r.Intn(2) == 0 {
				n = w*[]int{1, 2, 4}[r.Intn(3)] + r.Intn(w)
			}
			x := b(n, 64, false)
			for k := range x {
				if x[k] > 64 {
					x[k] = 64
				}
			}
			if n > 0 && r.Intn(5) > 0 {
				x[r.Intn(n)] = []int{-64, 64}[r.Intn(2)]
			} else {
				for k := range x {
					x[k] = 0
				}
			}
			ops = append(ops, vh.Op{"op": "print", "b": x, "width": w})
		default:
			ops = append(ops, vh.Op{"op": "dump", "b": b(r.Intn(9), 80, false), "max": r.Intn(12) - 2})
		}
	}
	return ops
}

// ---------------------------------------------------------------- allocation tracking and pools

type trackSubj struct {
	pool pool
	out  map[int][]float32
	bufs [][]float32
	ptrs map[int]uintptr
}

var junk []byte

func (s *trackSubj) Close() {
	debug.DisableAllocationTracking()
	debug.ResetAllocationTracking()
}

var entry = regexp.MustCompile(`(?m)^Buffer: (\S+)\n  Size: (\d+), Capacity: (\d+)\n  Access Count: (\d+)\n  Total Bytes: (\d+)\n`)
var totals = regexp.MustCompile(`(?m)^Total Allocations: (\d+)\nTotal Bytes: (\d+)\n`)

func num(s string) int { n, _ := strconv.Atoi(s); return n }

func panics(f func()) (r int) {
	defer func() {
		if recover() != nil {
			r = 1
		}
	}()
	f()
	return 0
}

func (s *trackSubj) Do(o vh.Op) any {
	switch o.S("op") {
	case "new":
		*s = trackSubj{pool: newPool(o.I("size")), out: map[int][]float32{}, ptrs: map[int]uintptr{}}
		debug.ResetAllocationTracking()
		debug.DisableAllocationTracking()
		for k := 0; k < 3; k++ {
			s.bufs = append(s.bufs, make([]float32, 4))
		}
		return []int{}
	case "enable":
		if o.B("on") {
			debug.EnableAllocationTracking()
		} else {
			debug.DisableAllocationTracking()
		}
		return []int{}
	case "reset":
		debug.ResetAllocationTracking()
		return []int{}
	case "check":
		n, c := o.I("len"), o.I("cap")
		return []int{panics(func() {
			if o.B("wide") {
				var b []float64
				if c >= 0 {
					b = make([]float64, n, c)
				}
				debug.CheckAllocation64(b, o.S("name"))
			} else {
				var b []float32
				if c >= 0 {
					b = make([]float32, n, c)
				}
				debug.CheckAllocation(b, o.S("name"))
			}
		})}
	case "start":
		debug.StartFrame()
		return []int{}
	case "end":
		a, b := debug.EndFrame()
		return []int{int(a), int(b)}
	case "report":
		x := debug.GetAllocationReport()
		if !built {
			o["got"] = []any{}
			return []int{len(x)}
		}
		t := totals.FindStringSubmatch(x)
		l := []any{}
		for _, m := range entry.FindAllStringSubmatch(x, -1) {
			l = append(l, []any{m[1], num(m[2]), num(m[3]), num(m[4]), num(m[5])})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].([]any)[0].(string) < l[j].([]any)[0].(string) })
		o["got"] = l
		return []int{num(t[1]), num(t[2])}
	case "reuse":
		var b []float32
		at := uintptr(0)
		if k := o.I("buf"); k >= 0 {
			b = s.bufs[k]
			at = uintptr(unsafe.Pointer(&b[0]))
		}
		var p uintptr
		x := panics(func() { p = debug.VerifyBufferReuse(b, "buf", s.ptrs[o.I("slot")]) })
		if x == 0 {
			s.ptrs[o.I("slot")] = p
		}
		switch {
		case x == 1:
			return []int{1, 0}
		case p == 0:
			return []int{0, 0}
		case p == at:
			return []int{0, 1}
		}
		return []int{0, 2}
	case "detect":
		x, ran := 1, 0
		for k := 0; k < 20 && x == 1; k++ {
			ran = 0
			x = panics(func() {
				debug.DetectAllocation(func() {
					ran++
					if o.B("alloc") {
						junk = make([]byte, 1<<o.I("bits"))
					}
					if o.B("drop") {
						junk = nil
						runtime.GC()
					}
				})
			})
			if o.B("drop") || o.B("alloc") {
				break
			}
		}
		return []int{x, ran}
	case "get":
		b := s.pool.Get()
		again := 0
		for _, x := range s.out {
			if len(x) > 0 && len(b) > 0 && &x[0] == &b[0] {
				again = 1
			}
		}
		s.out[o.I("k")] = b
		a, u := s.pool.Stats()
		o["made"] = int(a)
		return []int{len(b), again, int(u)}
	case "put":
		b := s.out[o.I("k")]
		if o.I("cut") > 0 {
			b = make([]float32, len(b)+o.I("cut"))
		}
		x := panics(func() { s.pool.Put(b) })
		if x == 0 {
			delete(s.out, o.I("k"))
		}
		_, u := s.pool.Stats()
		return []int{x, int(u)}
	}
	panic("harness: unknown op")
}

func genTrack(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{{"op": "new", "size": 1 + r.Intn(8), "built": built}, {"op": "enable", "on": r.Intn(4) > 0}}
	k := 0
	held := []int{}
	names := []string{"in", "out", "tmp"}
	for len(ops) < 24 {
		switch w := r.Intn(24); {
		case w == 0:
			ops = append(ops, vh.Op{"op": "enable", "on": r.Intn(3) > 0})
		case w == 1 && r.Intn(2) == 0:
			ops = append(ops, vh.Op{"op": "reset"})
		case w < 9:
			c := r.Intn(9)
			o := vh.Op{"op": "check", "name": names[r.Intn(3)], "wide": r.Intn(3) == 0, "cap": c, "len": r.Intn(c + 1)}
			if r.Intn(10) == 0 {
				o["cap"], o["len"] = -1, 0
			}
			ops = append(ops, o)
		case w < 11:
			ops = append(ops, vh.Op{"op": "start"})
		case w < 13:
			ops = append(ops, vh.Op{"op": "end"})
		case w == 13:
			ops = append(ops, vh.Op{"op": "report"})
		case w < 17:
			ops = append(ops, vh.Op{"op": "reuse", "buf": r.Intn(7)/2 - 1, "slot": r.Intn(2)})
		case w == 17 && r.Intn(4) == 0:
			alloc := r.Intn(3) > 0
			ops = append(ops, vh.Op{"op": "detect", "alloc": alloc, "drop": alloc && r.Intn(2) == 0, "bits": 6 + r.Intn(15)})
		case !built:
		case w < 21:
			k++
			held = append(held, k)
			ops = append(ops, vh.Op{"op": "get", "k": k})
		case len(held) > 0:
			j := r.Intn(len(held))
			if r.Intn(6) == 0 {
				ops = append(ops, vh.Op{"op": "put", "k": held[j], "cut": 1 + r.Intn(2)})
			} else {
				ops = append(ops, vh.Op{"op": "put", "k": held[j], "cut": 0})
				held = append(held[:j], held[j+1:]...)
			}
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "bufstats", New: func() vh.Subject { return &audioSubj{} }, Gen: genAudio, Quick: 600, Thorough: 10000})
	vh.Register(&vh.Domain{Name: "alloctrack", New: func() vh.Subject { return &trackSubj{} }, Gen: genTrack, Quick: 400, Thorough: 6000})
}
