// Package vh binds TLA+ specifications to the Go code of vst3go.
//
// A Domain wraps one part of the system behind a uniform "apply one operation,
// observe one result" interface.  The same interface is driven in two
// directions:
//
//	record: a generator produces operation histories, the real code executes
//	        them, and every operation with its observed result is written down
//	        for TLC to validate against the specification;
//	replay: TLC produces behaviours of the specification (operations with the
//	        results the specification demands), the real code executes the
//	        operations and the observed results are compared.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Op is one operation: "op" is its name, the other keys its arguments.
type Op map[string]any

// Item is one step of a history.
type Item struct {
	E   Op  `json:"e"`
	Res any `json:"res"`
}

// Subject executes operations on the real code.
type Subject interface {
	Do(o Op) any
}

// Closer may be implemented by subjects that hold resources.
type Closer interface{ Close() }

// Domain describes one binding.
type Domain struct {
	Name string
	New  func() Subject
	// Gen returns one history of operations (without results).
	Gen func(r *rand.Rand, i int, tier string) []Op
	// Count returns how many generated histories a tier asks for.
	Quick, Thorough int
	// Fixed returns systematically enumerated histories that are always run.
	Fixed func(tier string) [][]Op
}

var domains = map[string]*Domain{}

// Register adds a domain.
func Register(d *Domain) { domains[d.Name] = d }

// S, I, B, F, L, IL, M fetch typed arguments.
func (o Op) S(k string) string {
	v, ok := o[k].(string)
	if !ok {
		panic(fmt.Sprintf("harness: op %v has no string %q", o, k))
	}
	return v
}
func (o Op) I(k string) int { return ToInt(o[k]) }
func (o Op) B(k string) bool {
	v, ok := o[k].(bool)
	if !ok {
		panic(fmt.Sprintf("harness: op %v has no bool %q", o, k))
	}
	return v
}
func (o Op) L(k string) []any { return ToList(o[k]) }
func (o Op) IL(k string) []int {
	l := o.L(k)
	r := make([]int, len(l))
	for i, v := range l {
		r[i] = ToInt(v)
	}
	return r
}
func (o Op) SL(k string) []string {
	l := o.L(k)
	r := make([]string, len(l))
	for i, v := range l {
		r[i] = v.(string)
	}
	return r
}
func (o Op) M(k string) Op { return ToOp(o[k]) }

// ToOp converts a nested record.
func ToOp(v any) Op {
	switch x := v.(type) {
	case Op:
		return x
	case map[string]any:
		return Op(x)
	}
	panic(fmt.Sprintf("harness: not a record: %v", v))
}

// ToList converts any slice.
func ToList(v any) []any {
	if l, ok := v.([]any); ok {
		return l
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice {
		r := make([]any, rv.Len())
		for i := range r {
			r[i] = rv.Index(i).Interface()
		}
		return r
	}
	panic(fmt.Sprintf("harness: not a list: %v", v))
}

// ToInt converts any JSON or Go integer.
func ToInt(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case int32:
		return int(x)
	case int64:
		return int(x)
	case uint32:
		return int(x)
	case uint8:
		return int(x)
	case float64:
		return int(x)
	case json.Number:
		n, err := x.Int64()
		if err != nil {
			panic("harness: not an int: " + x.String())
		}
		return int(n)
	}
	panic(fmt.Sprintf("harness: not an int: %v (%T)", v, v))
}

// hung is set once an operation did not return; driving stops then.
var hung atomic.Bool

// HangSeconds bounds one operation of the real code.
var HangSeconds = 20

func safeDo(s Subject, o Op) (res any) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness:") {
				fmt.Fprintln(os.Stderr, msg)
				buf := make([]byte, 4096)
				os.Stderr.Write(buf[:runtime.Stack(buf, false)])
				os.Exit(3)
			}
			res = map[string]any{"panic": Ascii(msg)}
		}
	}()
	return s.Do(o)
}

// Ascii keeps strings free of characters TLC would not read back verbatim.
func Ascii(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 32 && c < 127 && c != '\\' && c != '"' {
			b.WriteRune(c)
		} else {
			b.WriteString(fmt.Sprintf("<%x>", c))
		}
	}
	return b.String()
}

// Run executes one history on a fresh subject.
func Run(d *Domain, ops []Op) []Item {
	out := make([]Item, 0, len(ops))
	done := make(chan struct{})
	prog := make(chan Item, len(ops)+1)
	go func() {
		defer close(done)
		s := d.New()
		for _, o := range ops {
			r := safeDo(s, o)
			prog <- Item{o, r}
			if m, ok := r.(map[string]any); ok {
				if _, p := m["panic"]; p {
					return
				}
			}
		}
		if c, ok := s.(Closer); ok {
			c.Close()
		}
	}()
	for {
		select {
		case it := <-prog:
			out = append(out, it)
		case <-done:
			for {
				select {
				case it := <-prog:
					out = append(out, it)
					continue
				default:
				}
				return out
			}
		case <-time.After(time.Duration(HangSeconds) * time.Second):
			if len(out) < len(ops) {
				out = append(out, Item{ops[len(out)], map[string]any{"panic": "hang"}})
				hung.Store(true)
			}
			return out
		}
	}
}

// Canon normalises a value for comparison.
func Canon(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		panic("harness: " + err.Error())
	}
	return x
}

// DecodeLine reads one JSON history.
func DecodeLine(b []byte) ([]Item, error) {
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var h []Item
	err := dec.Decode(&h)
	return h, err
}

// Main is the entry point of every harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness record|replay|run ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	dom := fs.String("domain", "", "domain")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "-", "output file")
	in := fs.String("in", "-", "input file")
	par := fs.Int("par", 6, "parallel replays")
	num := fs.Int("n", -1, "number of generated histories")
	fs.Parse(os.Args[2:])
	d := domains[*dom]
	if d == nil {
		names := []string{}
		for n := range domains {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintf(os.Stderr, "harness: unknown domain %q (have %v)\n", *dom, names)
		os.Exit(2)
	}
	var w io.Writer = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // what the code under test prints is not our output
	}
	if *out != "-" {
		f, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		w = f
	}
	bw := bufio.NewWriter(w)
	defer bw.Flush()
	switch cmd {
	case "record":
		hists := [][]Op{}
		if d.Fixed != nil {
			hists = append(hists, d.Fixed(*tier)...)
		}
		n := d.Quick
		if *tier == "thorough" {
			n = d.Thorough
		}
		if *num >= 0 {
			n = *num
		}
		if d.Gen != nil {
			for i := 0; i < n; i++ {
				r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
				hists = append(hists, d.Gen(r, i, *tier))
			}
		}
		enc := json.NewEncoder(bw)
		enc.SetEscapeHTML(false)
		for _, ops := range hists {
			if hung.Load() {
				break
			}
			if err := enc.Encode(Run(d, ops)); err != nil {
				fmt.Fprintln(os.Stderr, "harness:", err)
				os.Exit(2)
			}
		}
	case "run":
		enc := json.NewEncoder(bw)
		enc.SetEscapeHTML(false)
		for h := range readHistories(*in) {
			ops := make([]Op, len(h))
			for i := range h {
				ops[i] = h[i].E
			}
			if err := enc.Encode(Run(d, ops)); err != nil {
				fmt.Fprintln(os.Stderr, "harness:", err)
				os.Exit(2)
			}
		}
	case "replay":
		replay(d, *in, bw, *par)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// readHistories streams histories from a file: either one JSON history per line
// or the output of TLC, whose behaviours are printed as <<"HIST", "...">>.
func readHistories(in string) <-chan []Item {
	out := make(chan []Item, 64)
	go func() {
		defer close(out)
		for b := range readLines(in) {
			h, err := DecodeLine(b)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness: bad history:", err)
				os.Exit(2)
			}
			out <- h
		}
	}()
	return out
}

const histMark = `<<"HIST", `

func readLines(in string) <-chan []byte {
	out := make(chan []byte, 256)
	go func() {
		defer close(out)
		var r io.Reader = os.Stdin
		if in != "-" {
			f, err := os.Open(in)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			defer f.Close()
			r = f
		}
		sc := bufio.NewScanner(r)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			line := sc.Text()
			switch {
			case strings.HasPrefix(line, histMark):
				var inner string
				if err := json.Unmarshal([]byte(strings.TrimSuffix(line[len(histMark):], ">>")), &inner); err != nil {
					fmt.Fprintln(os.Stderr, "harness: bad TLC line:", err, line)
					os.Exit(2)
				}
				out <- []byte(inner)
			case strings.HasPrefix(line, "["):
				out <- []byte(line)
			}
		}
		if err := sc.Err(); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(2)
		}
	}()
	return out
}

// replay runs behaviours of the specification on the real code.
func replay(d *Domain, in string, bw *bufio.Writer, par int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	total, steps, bad := 0, 0, 0
	counts := map[string]int{}
	var sample []Item
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	lines := readLines(in)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range lines {
				if hung.Load() {
					continue
				}
				h, err := DecodeLine(b)
				if err != nil {
					fmt.Fprintln(os.Stderr, "harness: bad history:", err)
					os.Exit(2)
				}
				ops := make([]Op, len(h))
				for i := range h {
					ops[i] = h[i].E
				}
				got := Run(d, ops)
				diff := -1
				var g any
				for i := range h {
					g = map[string]any{"panic": "history stopped early"}
					if i < len(got) {
						g = got[i].Res
					}
					if !reflect.DeepEqual(Canon(g), Canon(h[i].Res)) {
						diff = i
						break
					}
				}
				mu.Lock()
				total++
				steps += len(h)
				for _, o := range ops {
					if n, ok := o["op"].(string); ok {
						counts[n]++
					}
				}
				if len(h) > len(sample) || (len(h) == len(sample) && total%1000 == 0) {
					sample = h
				}
				if diff >= 0 {
					bad++
					if bad <= 20 {
						enc.Encode(map[string]any{"history": h[:diff+1], "step": diff, "expected": h[diff].Res, "got": g})
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	bw.Flush()
	rep := map[string]any{"histories": total, "steps": steps, "bad": bad, "ops": counts, "sample": sample}
	b, _ := json.Marshal(rep)
	fmt.Fprintf(os.Stderr, "REPLAY %s\n", b)
}

// Box adapts a function to Subject.
type Box func(o Op) any

// Do implements Subject.
func (b Box) Do(o Op) any { return b(o) }
