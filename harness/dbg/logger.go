package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/vh"
)

// sink takes what a logger writes, slowly, and notices when two write at once.
type sink struct {
	mu   sync.Mutex
	b    bytes.Buffer
	busy atomic.Int32
	odd  atomic.Int32
	slow bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.busy.Add(1) != 1 {
		s.odd.Store(1)
	}
	half := len(p) / 2
	s.mu.Lock()
	s.b.Write(p[:half])
	s.mu.Unlock()
	if s.slow {
		runtime.Gosched()
	}
	s.mu.Lock()
	s.b.Write(p[half:])
	s.mu.Unlock()
	s.busy.Add(-1)
	return len(p), nil
}

type logSubj struct {
	lg     *debug.Logger
	global bool
	out    *sink
	old    []*sink
	file   string
	at     int
	dir    string
	where  map[string]string // file:line of the calls made
	from   time.Time
}

func (s *logSubj) Close() {
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
	debug.SetOutput(os.Stderr)
}

func (s *logSubj) here() {
	_, f, l, _ := runtime.Caller(1)
	s.where[fmt.Sprintf("%s:%d: ", f, l)] = "FULL: "
	s.where[fmt.Sprintf("%s:%d: ", filepath.Base(f), l)] = "HERE: "
}

// talker logs when it is asked what it is.
type talker struct{ s *logSubj }

func (t talker) String() string {
	s := t.s
	if s.global {
		s.here(); debug.Info("inner")
	} else {
		s.here(); s.lg.Info("inner")
	}
	return "said"
}

var stamp = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} `)
var place = regexp.MustCompile(`[^ ]*\.go:\d+: `)

// lines is what was written since it was last asked.
func (s *logSubj) lines() []string {
	var raw string
	if s.file != "" {
		b, _ := os.ReadFile(s.file)
		raw, s.at = string(b[s.at:]), len(b)
	} else {
		s.out.mu.Lock()
		raw = s.out.b.String()
		s.out.b.Reset()
		s.out.mu.Unlock()
		if s.out.odd.Load() != 0 {
			raw += "two writes at once\n"
		}
	}
	for _, x := range s.old {
		if x.b.Len() > 0 {
			raw += "to the old output\n"
		}
	}
	l := []string{}
	for raw != "" {
		i := strings.Index(raw, "\n")
		if i < 0 {
			l = append(l, "unfinished "+raw)
			break
		}
		x := raw[:i]
		raw = raw[i+1:]
		if t := stamp.FindString(x); t != "" {
			w, err := time.ParseInLocation("2006-01-02 15:04:05.000 ", t, time.Local)
			x = x[len(t):]
			if err != nil || w.Before(s.from.Truncate(time.Millisecond)) || w.After(time.Now()) {
				x = "another time " + x
			} else {
				x = "T " + x
			}
		}
		if p := place.FindString(x); p != "" {
			to, ok := s.where[p]
			if !ok {
				to = "elsewhere: "
			}
			x = strings.Replace(x, p, to, 1)
		}
		l = append(l, x)
	}
	return l
}

func (s *logSubj) emit(how string, level int, cond bool, f string, a ...interface{}) {
	switch how {
	case "method":
		switch level {
		case 0:
			s.here(); s.lg.Debug(f, a...)
		case 1:
			s.here(); s.lg.Info(f, a...)
		case 2:
			s.here(); s.lg.Warn(f, a...)
		case 3:
			s.here(); s.lg.Error(f, a...)
		case 4:
			s.here(); s.lg.Fatal(f, a...)
		}
	case "func":
		switch level {
		case 0:
			s.here(); debug.Debug(f, a...)
		case 1:
			s.here(); debug.Info(f, a...)
		case 2:
			s.here(); debug.Warn(f, a...)
		case 3:
			s.here(); debug.Error(f, a...)
		case 4:
			s.here(); debug.Fatal(f, a...)
		}
	case "if":
		switch level {
		case 0:
			s.here(); debug.DebugIf(cond, f, a...)
		case 2:
			s.here(); debug.WarnIf(cond, f, a...)
		case 3:
			s.here(); debug.ErrorIf(cond, f, a...)
		}
	}
}

func strs(v any) []string {
	r := []string{}
	for _, x := range vh.ToList(v) {
		r = append(r, x.(string))
	}
	return r
}

func (s *logSubj) Do(o vh.Op) any {
	s.where, s.from = map[string]string{}, time.Now()
	switch o.S("op") {
	case "new":
		s.out, s.old, s.file, s.global = &sink{slow: o.B("slow")}, nil, "", o.B("global")
		if s.global {
			s.lg = debug.Default()
			debug.SetOutput(s.out)
			debug.SetPrefix(o.S("prefix"))
			debug.SetFlags(o.I("flags"))
			debug.SetLevel(debug.LogLevelInfo)
			debug.SetEnabled(true)
		} else {
			s.lg = debug.New(s.out, o.S("prefix"), o.I("flags"))
		}
		return []string{}
	case "file":
		if s.dir == "" {
			s.dir, _ = os.MkdirTemp("", "verif-log")
		}
		p := filepath.Join(s.dir, o.S("name"))
		lg, err := debug.NewFileLogger(p, o.S("prefix"), o.I("flags"))
		if err != nil {
			return []string{"failed"}
		}
		if b, err := os.ReadFile(p); err == nil {
			s.at = len(b)
		} else {
			return []string{"no file"}
		}
		s.lg, s.file, s.global = lg, p, false
		return []string{}
	case "output":
		if s.file == "" {
			s.old = append(s.old, s.out)
		}
		s.out, s.file = &sink{}, ""
		if s.global {
			debug.SetOutput(s.out)
		} else {
			s.lg.SetOutput(s.out)
		}
		return []string{}
	case "level":
		if s.global {
			debug.SetLevel(debug.LogLevel(o.I("v")))
		} else {
			s.lg.SetLevel(debug.LogLevel(o.I("v")))
		}
		return []string{}
	case "prefix":
		if s.global {
			debug.SetPrefix(o.S("v"))
		} else {
			s.lg.SetPrefix(o.S("v"))
		}
		return []string{}
	case "flags":
		if s.global {
			debug.SetFlags(o.I("v"))
		} else {
			s.lg.SetFlags(o.I("v"))
		}
		return []string{}
	case "enable":
		if s.global {
			debug.SetEnabled(o.B("on"))
		} else {
			s.lg.SetEnabled(o.B("on"))
		}
		return []string{fmt.Sprint(s.lg.IsEnabled())}
	case "name":
		return []string{debug.LogLevel(o.I("v")).String()}
	case "log":
		f := strings.Join(strs(o["parts"]), "\n")
		var a []interface{}
		switch o.S("arg") {
		case "num":
			f, a = f+" %d", []interface{}{o.I("num")}
		case "str":
			f, a = f+" %s", []interface{}{"%d!"}
		case "percent":
			f += " 100%%"
		case "talk":
			f, a = f+" %v", []interface{}{talker{s}}
		}
		if o.B("nl") {
			f += "\n"
		}
		how := o.S("how")
		if !s.global {
			how = "method"
		}
		said := func() (r string) {
			defer func() {
				if e := recover(); e != nil {
					r = fmt.Sprint("panic: ", e)
				}
			}()
			s.emit(how, o.I("level"), o.B("cond"), f, a...)
			return ""
		}()
		l := s.lines()
		if said != "" {
			l = append(l, strings.Split(strings.TrimSuffix(said, "\n"), "\n")...)
		}
		return l
	case "storm":
		var wg sync.WaitGroup
		s.here()
		var gate atomic.Bool
		var first sync.Mutex
		for t := 1; t <= o.I("th"); t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !gate.Load() {
				}
				for i := 1; i <= o.I("k"); i++ {
					if i == 1 {
						first.Lock()
						s.here(); first.Unlock(); s.lg.Warn("m%d.%d", t, i)
					} else {
						first.Lock()
						s.here(); first.Unlock(); s.lg.Warn("m%d.%d", t, i)
					}
				}
			}()
		}
		gate.Store(true)
		wg.Wait()
		l := s.lines()
		o["got"] = l
		return []string{}
	}
	panic("harness: unknown op")
}

func genLog(r *rand.Rand, i int, tier string) []vh.Op {
	prefixes := []string{"", "p", "my plugin"}
	flags := func() int { return r.Intn(32) }
	global := r.Intn(2) == 0
	ops := []vh.Op{{"op": "new", "global": global, "prefix": prefixes[r.Intn(3)], "flags": flags(), "slow": r.Intn(2) == 0}}
	words := []string{"", "a", "two words", "x: y", "[z]"}
	for len(ops) < 20 {
		switch w := r.Intn(20); {
		case w == 0:
			ops = append(ops, vh.Op{"op": "output"})
		case w == 1:
			ops = append(ops, vh.Op{"op": "level", "v": r.Intn(6)})
		case w == 2:
			ops = append(ops, vh.Op{"op": "prefix", "v": prefixes[r.Intn(3)]})
		case w == 3:
			ops = append(ops, vh.Op{"op": "flags", "v": flags()})
		case w == 4:
			ops = append(ops, vh.Op{"op": "enable", "on": r.Intn(3) > 0})
		case w == 5:
			ops = append(ops, vh.Op{"op": "name", "v": r.Intn(9) - 1})
		case w == 6:
			ops = append(ops, vh.Op{"op": "storm", "th": 1 + r.Intn(4), "k": 1 + r.Intn(4)})
		case w == 7 && !global:
			ops = append(ops, vh.Op{"op": "file", "name": []string{"a.log", "b.log", "d/e/f.log", "a.log/g.log"}[r.Intn(4)], "prefix": prefixes[r.Intn(3)], "flags": flags()})
		default:
			parts := []string{words[r.Intn(len(words))]}
			for parts[0] != "" && r.Intn(5) == 0 {
				parts = append(parts, words[1+r.Intn(len(words)-1)])
			}
			level := r.Intn(5)
			how := []string{"method", "func", "if"}[r.Intn(3)]
			if how == "if" && (level == 1 || level == 4) {
				how = "func"
			}
			arg := []string{"none", "none", "num", "str", "percent", "talk"}[r.Intn(6)]
			if arg == "talk" && level == 4 {
				arg = "num"
			}
			ops = append(ops, vh.Op{"op": "log", "how": how, "cond": r.Intn(2) == 0, "level": level, "parts": parts, "arg": arg, "num": r.Intn(100) - 50, "nl": r.Intn(4) == 0})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "logger", New: func() vh.Subject { return &logSubj{} }, Gen: genLog, Quick: 500, Thorough: 8000})
}
