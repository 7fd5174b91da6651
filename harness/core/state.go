package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sync"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"verif/vh"
)

const specNaN = 9999

type inst struct {
	reg  *param.Registry
	mgr  *state.Manager
	cust []byte
}

type stateSubj struct {
	p     [3]*inst
	saved [][]byte
}

// what code that fails may say
func failure(k int) error {
	return []error{errors.New("it fails"), io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF}[k%4]
}

func newInst(params [][]int, save, load string, c []byte) *inst {
	in := &inst{reg: param.NewRegistry(), cust: c}
	for _, x := range params {
		in.add(x[0], x[1])
	}
	in.mgr = state.NewManager(in.reg)
	switch save {
	case "ok":
		in.mgr.SetCustomSaveFunc(func(w io.Writer) error {
			for i := range in.cust {
				if n, err := w.Write(in.cust[i : i+1]); err != nil || n != 1 {
					return errors.New("custom data not written")
				}
			}
			return nil
		})
	case "fail":
		in.mgr.SetCustomSaveFunc(func(w io.Writer) error { return failure(len(params) + len(c)) })
	}
	switch load {
	case "ok":
		in.mgr.SetCustomLoadFunc(func(r io.Reader) error {
			b, err := io.ReadAll(r)
			if err != nil {
				return err
			}
			in.cust = b
			return nil
		})
	case "fail":
		in.mgr.SetCustomLoadFunc(func(r io.Reader) error { return failure(len(params) + len(c)) })
	}
	return in
}

func (in *inst) add(id, v int) {
	p := param.New(uint32(id), "p").Build()
	p.SetValue(float64(v) / 64)
	in.reg.Add(p)
}

func (in *inst) vals() []int {
	r := []int{}
	for i := int32(0); i < in.reg.Count(); i++ {
		r = append(r, t64(in.reg.GetByIndex(i).GetValue()))
	}
	return r
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

func toBytes(l []int) []byte {
	b := make([]byte, len(l))
	for i := range l {
		b[i] = byte(l[i])
	}
	return b
}

// encode writes a stream independently of the code under test.
func encode(b vh.Op) []byte {
	var w bytes.Buffer
	if b.I("magic") == 1 {
		w.WriteString("VST3GO")
	} else {
		w.WriteString("VST3GP")
	}
	le := binary.LittleEndian
	w.Write(le.AppendUint32(nil, uint32(b.I("ver"))))
	w.Write(le.AppendUint32(nil, uint32(int32(b.I("count")))))
	for _, e := range b.L("entries") {
		l := vh.ToList(e)
		x := float64(vh.ToInt(l[1])) / 64
		if vh.ToInt(l[1]) == specNaN {
			x = math.NaN()
		}
		w.Write(le.AppendUint32(nil, uint32(vh.ToInt(l[0]))))
		w.Write(le.AppendUint64(nil, math.Float64bits(x)))
	}
	w.Write(le.AppendUint32(nil, uint32(b.I("flag"))))
	w.Write(toBytes(b.IL("custom")))
	return w.Bytes()
}

// decode reads a stream independently; what does not fit the format ends up in "custom".
func decode(d []byte) map[string]any {
	le := binary.LittleEndian
	r := map[string]any{"magic": 0, "ver": -1, "count": -1, "entries": []any{}, "flag": -1, "custom": []int{}}
	if len(d) < 18 || string(d[:6]) != "VST3GO" {
		r["custom"] = ints(d)
		return r
	}
	r["magic"], r["ver"] = 1, int(le.Uint32(d[6:]))
	n := int(int32(le.Uint32(d[10:])))
	r["count"] = n
	d = d[14:]
	es := []any{}
	for i := 0; i < n && len(d) >= 16; i++ {
		es = append(es, []int{int(le.Uint32(d)), t64(math.Float64frombits(le.Uint64(d[4:])))})
		d = d[12:]
	}
	r["entries"] = es
	if len(d) >= 4 {
		r["flag"] = int(int32(le.Uint32(d)))
		d = d[4:]
	}
	r["custom"] = ints(d)
	return r
}

type glitch struct{ k int }

func (g *glitch) Write(b []byte) (int, error) {
	if g.k--; g.k == 0 {
		return 0, failure(len(b))
	}
	return len(b), nil
}

type limReader struct {
	d     []byte
	chunk int
	fails bool
}

func (l *limReader) Read(p []byte) (int, error) {
	if len(l.d) == 0 {
		if l.fails {
			return 0, errors.New("read failed")
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > l.chunk {
		n = l.chunk
	}
	n = copy(p[:n], l.d)
	l.d = l.d[n:]
	return n, nil
}

type limWriter struct {
	left int
}

func (l *limWriter) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.left = 0
		return n, failure(n + len(p))
	}
	l.left -= len(p)
	return len(p), nil
}

// hookWriter changes the instance while it is being saved.
type hookWriter struct {
	bytes.Buffer
	do []func()
	at []int
	n  int

	yield int // of ten writes, how many let others go first
}

func (h *hookWriter) Write(p []byte) (int, error) {
	h.n++
	if h.n%10 < h.yield {
		runtime.Gosched()
	}
	for len(h.at) > 0 && h.at[0] <= h.n {
		h.do[0]()
		h.do, h.at = h.do[1:], h.at[1:]
	}
	return h.Buffer.Write(p)
}

func errInt(err error) int {
	if err != nil {
		return 1
	}
	return 0
}

func pairs(l []any) [][]int {
	r := [][]int{}
	for _, x := range l {
		y := vh.ToList(x)
		r = append(r, []int{vh.ToInt(y[0]), vh.ToInt(y[1])})
	}
	return r
}

func (s *stateSubj) Do(o vh.Op) any {
	if o.S("op") == "new" {
		h1, h2 := o.SL("h1"), o.SL("h2")
		s.p[1] = newInst(pairs(o.L("a")), h1[0], h1[1], toBytes(o.IL("c")))
		s.p[2] = newInst(pairs(o.L("b")), h2[0], h2[1], toBytes(o.IL("c")))
		return []int{}
	}
	in := s.p[o.I("p")]
	set := func(id, x int) {
		if p := in.reg.Get(uint32(id)); p != nil {
			p.SetValue(float64(x) / 64)
		}
	}
	load := func(d []byte, chunk int, fails bool) any {
		err := in.mgr.Load(&limReader{d, chunk, fails})
		return []any{errInt(err), in.vals(), ints(in.cust)}
	}
	switch o.S("op") {
	case "set":
		set(o.I("id"), o.I("x"))
	case "add":
		in.add(o.I("id"), 0)
	case "custom":
		in.cust = toBytes(o.IL("c"))
	case "save":
		var w bytes.Buffer
		if err := in.mgr.Save(&w); err != nil {
			return []any{1, []any{}}
		}
		s.saved = append(s.saved, w.Bytes())
		return []any{0, []any{decode(w.Bytes())}}
	case "savefail":
		return []any{errInt(in.mgr.Save(&limWriter{o.I("n")}))}
	case "saveglitch": // the k-th write is refused, those after it are not
		w := &glitch{k: o.I("k")}
		err := in.mgr.Save(w)
		o["broke"] = w.k <= 0
		return []any{errInt(err)}
	case "saveduring":
		w := &hookWriter{}
		for i, m := range o.L("muts") {
			l := vh.ToList(m)
			id, x := vh.ToInt(l[1]), vh.ToInt(l[2])
			if o["at"] != nil {
				w.at = append(w.at, o.IL("at")[i])
			}
			if l[0].(string) == "set" {
				w.do = append(w.do, func() { set(id, x) })
			} else {
				w.do = append(w.do, func() { in.add(id, 0) })
			}
		}
		var err error
		if o["thread"] != nil {
			// the changes are made by another thread
			do := w.do
			w.do, w.at, w.yield = nil, nil, o.I("thread")
			var wg sync.WaitGroup
			wg.Add(1)
			ready := make(chan bool)
			go func() {
				defer wg.Done()
				ready <- true
				for _, f := range do {
					f()
				}
			}()
			<-ready
			err = in.mgr.Save(w)
			wg.Wait()
		} else {
			err = in.mgr.Save(w)
		}
		for _, f := range w.do {
			f()
		}
		if err != nil {
			return []any{1, []any{}}
		}
		s.saved = append(s.saved, w.Bytes())
		return []any{0, []any{decode(w.Bytes())}}
	case "load":
		d := encode(o.M("b"))
		if n := o.I("n"); n < len(d) {
			d = d[:n]
		}
		return load(d, o.I("chunk"), o.I("fails") == 1)
	case "loadsaved":
		d := s.saved[o.I("i")-1]
		if n := o.I("n"); n < len(d) {
			d = d[:n]
		}
		return load(d, o.I("chunk"), false)
	case "get":
		return []any{in.vals(), ints(in.cust)}
	default:
		panic("harness: unknown op")
	}
	return []int{}
}

func rbytes(r *rand.Rand, max int) []int {
	l := make([]int, r.Intn(max+1))
	for i := range l {
		l[i] = r.Intn(256)
	}
	return l
}

func rparams(r *rand.Rand, maxID, n int) []any {
	l := []any{}
	for _, id := range r.Perm(maxID)[:n] {
		l = append(l, []int{id, r.Intn(65)})
	}
	return l
}

func rblob(r *rand.Rand) vh.Op {
	es := []any{}
	for i := r.Intn(6); i > 0; i-- {
		v := r.Intn(65)
		switch r.Intn(6) {
		case 0:
			v = []int{-1, 65, -6400, 100000, specNaN}[r.Intn(5)]
		}
		es = append(es, []int{[]int{r.Intn(10), r.Intn(10), r.Intn(10), 1 << 30}[r.Intn(4)], v})
	}
	b := vh.Op{"magic": 1, "ver": 1, "count": len(es), "entries": es, "flag": r.Intn(2), "custom": rbytes(r, 20)}
	switch r.Intn(8) {
	case 0:
		b["ver"] = []int{0, 2, 7, 1 << 30}[r.Intn(4)]
	case 1:
		b["magic"] = 0
	case 2:
		b["count"] = len(es) + 1 + r.Intn(3)
		b["custom"] = rbytes(r, 7)
		if r.Intn(2) == 0 {
			b["count"] = 1<<31 - 1
		}
	}
	if b["flag"].(int) == 1 && r.Intn(3) == 0 {
		b["flag"] = 2 + r.Intn(100)
	}
	return b
}

func genState(r *rand.Rand, i int, tier string) []vh.Op {
	hk := func() []string {
		return []string{[]string{"ok", "ok", "none", "fail"}[r.Intn(4)], []string{"ok", "ok", "none", "fail"}[r.Intn(4)]}
	}
	ops := []vh.Op{{"op": "new", "a": rparams(r, 10, r.Intn(6)), "b": rparams(r, 10, r.Intn(6)), "h1": hk(), "h2": hk(), "c": rbytes(r, 6)}}
	canSave := func(p int) bool { return ops[0].SL([]string{"", "h1", "h2"}[p])[0] != "fail" }
	saved := 0
	for len(ops) < 30 {
		p := 1 + r.Intn(2)
		n := r.Intn(120)
		if r.Intn(3) > 0 {
			n = 1 << 20
		}
		ch := []int{1, 3, 5, 8, 1 << 20}[r.Intn(5)]
		switch r.Intn(12) {
		case 0, 1, 2:
			x := r.Intn(65)
			if r.Intn(5) == 0 {
				x = -3 + r.Intn(2)*100
			}
			ops = append(ops, vh.Op{"op": "set", "p": p, "id": r.Intn(10), "x": x})
		case 3:
			ops = append(ops, vh.Op{"op": "add", "p": p, "id": r.Intn(12)})
		case 4:
			ops = append(ops, vh.Op{"op": "custom", "p": p, "c": rbytes(r, 10)})
		case 5, 6:
			ops = append(ops, vh.Op{"op": "save", "p": p})
			if canSave(p) {
				saved++
			}
		case 7:
			ops = append(ops, vh.Op{"op": "savefail", "p": p, "n": r.Intn(110)})
			ops = append(ops, vh.Op{"op": "saveglitch", "p": p, "k": 1 + r.Intn(30)})
		case 8:
			ops = append(ops, vh.Op{"op": "load", "p": p, "b": rblob(r), "n": n, "chunk": ch, "fails": r.Intn(2)})
		case 9, 10:
			if saved > 0 {
				ops = append(ops, vh.Op{"op": "loadsaved", "p": p, "i": 1 + r.Intn(saved), "n": n, "chunk": ch})
			}
		case 11:
			ops = append(ops, vh.Op{"op": "get", "p": p})
		}
	}
	return ops
}

// every cut of a stream, every amount a failing writer takes
func fixedState(tier string) [][]vh.Op {
	nw := vh.Op{"op": "new", "a": []any{[]int{1, 10}, []int{2, 20}, []int{3, 30}}, "b": []any{[]int{3, 1}, []int{2, 2}, []int{5, 3}},
		"h1": []string{"ok", "ok"}, "h2": []string{"ok", "ok"}, "c": []int{7, 0, 9}}
	var hs [][]vh.Op
	h := []vh.Op{nw}
	for n := 0; n <= 60; n++ {
		h = append(h, vh.Op{"op": "savefail", "p": 1, "n": n})
	}
	for k := 1; k <= 14; k++ {
		h = append(h, vh.Op{"op": "saveglitch", "p": 1, "k": k})
	}
	h = append(h, vh.Op{"op": "save", "p": 1})
	hs = append(hs, h)
	for _, ch := range []int{1, 7, 1 << 20} {
		for f := 0; f < 2; f++ {
			h := []vh.Op{nw}
			for n := 0; n <= 60; n++ {
				h = append(h, vh.Op{"op": "set", "p": 2, "id": 2, "x": n}, vh.Op{"op": "custom", "p": 2, "c": []int{n}})
				h = append(h, vh.Op{"op": "load", "p": 2, "n": n, "chunk": ch, "fails": f,
					"b": vh.Op{"magic": 1, "ver": 1, "count": 3, "entries": []any{[]int{2, 64}, []int{9, 4}, []int{3, 8}}, "flag": 1, "custom": []int{1, 2, 3}}})
			}
			hs = append(hs, h)
		}
	}
	return hs
}

// duringSubj records what a save interleaved with changes wrote.
type duringSubj struct{ stateSubj }

func (s *duringSubj) Do(o vh.Op) any {
	r := s.stateSubj.Do(o)
	if o.S("op") == "saveduring" {
		o["r"] = r
	}
	return r
}

func genDuring(r *rand.Rand, i int, tier string) []vh.Op {
	ops := []vh.Op{{"op": "new", "a": rparams(r, 6, 1+r.Intn(4)), "b": rparams(r, 6, 1+r.Intn(4)),
		"h1": []string{[]string{"ok", "none"}[r.Intn(2)], "ok"}, "h2": []string{"none", "none"}, "c": rbytes(r, 4)}}
	saved := 0
	for len(ops) < 8 {
		p := 1 + r.Intn(2)
		muts, at := []any{}, []int{}
		x := 0
		for k := r.Intn(5); k >= 0; k-- {
			x += r.Intn(5)
			at = append(at, x)
			if r.Intn(3) == 0 {
				muts = append(muts, []any{"add", r.Intn(12), 0})
			} else {
				muts = append(muts, []any{"set", r.Intn(8), r.Intn(65)})
			}
		}
		ops = append(ops, vh.Op{"op": "saveduring", "p": p, "muts": muts, "at": at})
		saved++
		ops = append(ops, vh.Op{"op": "loadsaved", "p": 1 + r.Intn(2), "i": saved, "n": 1 << 20, "chunk": 1 << 20})
	}
	return ops
}

// the same with the changes made by another thread
func genThread(r *rand.Rand, i int, tier string) []vh.Op {
	ops := genDuring(r, i, tier)
	for _, o := range ops {
		if o.S("op") == "saveduring" {
			o["thread"] = r.Intn(11)
			muts := o.L("muts")
			for n := 8 + r.Intn(8); len(muts) < n; {
				if r.Intn(6) == 0 {
					muts = append(muts, []any{"add", r.Intn(30), 0})
				} else {
					muts = append(muts, []any{"set", r.Intn(8), []int{-10, 80, r.Intn(65)}[r.Intn(3)]})
				}
			}
			delete(o, "at")
			o["muts"] = muts
		}
	}
	return ops
}

// one addition or change at every single write of a save
func fixedDuring(tier string) [][]vh.Op {
	var hs [][]vh.Op
	for at := 0; at < 12; at++ {
		for _, m := range [][]any{{"add", 9, 0}, {"set", 1, 50}, {"set", 2, 51}, {"set", 3, 52}} {
			hs = append(hs, []vh.Op{{"op": "new", "a": []any{[]int{1, 10}, []int{2, 20}, []int{3, 30}}, "b": []any{[]int{3, 1}, []int{9, 2}},
				"h1": []string{"ok", "ok"}, "h2": []string{"none", "ok"}, "c": []int{7, 0, 9}},
				{"op": "saveduring", "p": 1, "muts": []any{m}, "at": []int{at}},
				{"op": "loadsaved", "p": 2, "i": 1, "n": 1 << 20, "chunk": 3}})
		}
	}
	return hs
}

func init() {
	vh.Register(&vh.Domain{Name: "state", New: func() vh.Subject { return &stateSubj{} }, Gen: genState, Fixed: fixedState, Quick: 800, Thorough: 6000})
	vh.Register(&vh.Domain{Name: "duringthread", New: func() vh.Subject { return &duringSubj{} }, Gen: genThread, Quick: 400, Thorough: 4000})
	vh.Register(&vh.Domain{Name: "during", New: func() vh.Subject { return &duringSubj{} }, Gen: genDuring, Fixed: fixedDuring, Quick: 800, Thorough: 6000})
}
