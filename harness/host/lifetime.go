package main

// #include "com.h"
import "C"
import (
	"bytes"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
	"weak"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"verif/vh"
)

type lifeObj struct {
	faces [5]unsafe.Pointer // 0: none yet
	refs  int
	w     weak.Pointer[proc]
	bad   *int
}

type lifeSubj struct {
	f    *C.IFac
	refs int
	info fplugin.Info
	m    *lifeMaker
	objs []*lifeObj
}

// lifeMaker makes processors and keeps only a weak hold of them.
type lifeMaker struct {
	info  fplugin.Info
	makes bool
	w     weak.Pointer[proc]
	bad   *int
}

func (m *lifeMaker) GetInfo() fplugin.Info { return m.info }
func (m *lifeMaker) CreateProcessor() plugin.Processor {
	if !m.makes {
		return nil
	}
	p := &proc{params: param.NewRegistry(), buses: bus.NewStereoConfiguration(), bad: new(int)}
	p.params.Add(param.New(7, "p").Range(0, 64).Build())
	m.w, m.bad = weak.Make(p), p.bad
	return p
}

func (s *lifeSubj) Close() {
	for _, x := range s.objs {
		for ; x.refs > 0; x.refs-- {
			C.h_release(x.any())
		}
	}
	for ; s.refs > 0; s.refs-- {
		C.h_release(unsafe.Pointer(s.f))
	}
}

func (x *lifeObj) any() unsafe.Pointer {
	for _, p := range x.faces {
		if p != nil {
			return p
		}
	}
	panic("harness: no face")
}

// slot is a place on the C side for a pointer that comes back.
func slot(f func(*unsafe.Pointer)) unsafe.Pointer {
	o := (*unsafe.Pointer)(C.calloc(1, 8))
	defer C.free(unsafe.Pointer(o))
	*o = unsafe.Pointer(o)
	f(o)
	return *o
}

func unknown(p unsafe.Pointer) unsafe.Pointer {
	u := slot(func(o *unsafe.Pointer) { C.h_qi(p, 0, o) })
	C.h_release(u)
	return u
}

// face gives the object's face of a kind, holding no more than before.
func (x *lifeObj) face(k int) unsafe.Pointer {
	if x.faces[k] == nil {
		x.faces[k] = slot(func(o *unsafe.Pointer) { C.h_qi(x.any(), C.int(k), o) })
		C.h_release(x.any())
	}
	return x.faces[k]
}

func field(p *C.char, n int) []int {
	b := unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return []int{-1}
	}
	return byteInts(b[:i])
}

func storm(p unsafe.Pointer) {
	var wg sync.WaitGroup
	for t := 0; t < 4; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			C.h_storm(p, 20000)
		}()
	}
	wg.Wait()
}

func (s *lifeSubj) Do(o vh.Op) any {
	fac := unsafe.Pointer(s.f)
	switch o.S("op") {
	case "register":
		if o.B("none") {
			plugin.Register(nil)
		} else {
			s.info = fplugin.Info{ID: "org.verif." + o.S("id"), Name: text(o["name"])}
			s.m = &lifeMaker{info: s.info, makes: o.B("makes")}
			plugin.Register(s.m)
		}
		plugin.SetFactoryInfo(plugin.FactoryInfo{Vendor: text(o["vendor"]), URL: text(o["url"]), Email: text(o["email"])})
		return []int{}
	case "module":
		if o.I("on") == 1 {
			return []int{int(C.ModuleEntry(nil))}
		}
		return []int{int(C.ModuleExit())}
	case "factory":
		s.f = C.GetPluginFactory()
		s.refs++
		return []int{b2i(s.f != nil)}
	case "alive":
		r := []int{}
		for i := 0; ; i++ {
			runtime.GC()
			r = r[:0]
			want := true
			for _, x := range s.objs {
				r = append(r, b2i(x.w.Value() != nil))
				want = want && (x.w.Value() != nil) == (x.refs > 0)
			}
			if want || i == 20 {
				return r
			}
			time.Sleep(time.Millisecond)
		}
	}
	if strings.HasPrefix(o.S("op"), "f") || o.S("op") == "count" || o.S("op") == "class" || o.S("op") == "create" {
		if s.refs == 0 {
			return []int{9}
		}
		switch o.S("op") {
		case "fqi":
			r := -1
			p := slot(func(q *unsafe.Pointer) { r = int(C.h_qi(fac, C.int(o.I("face")), q)) })
			if r == 0 {
				s.refs++
			}
			return []int{b2i(r == 0), b2i(p != nil && p == fac)}
		case "faddref":
			s.refs++
			return []int{int(C.h_addref(fac))}
		case "frelease":
			s.refs--
			return []int{int(C.h_release(fac))}
		case "fstorm":
			storm(fac)
			C.h_addref(fac)
			return []int{int(C.h_release(fac))}
		case "finfo":
			i := (*C.struct_Steinberg_PFactoryInfo)(C.malloc(C.size_t(unsafe.Sizeof(C.struct_Steinberg_PFactoryInfo{}))))
			defer C.free(unsafe.Pointer(i))
			C.memset(unsafe.Pointer(i), 0x55, C.size_t(unsafe.Sizeof(*i)))
			if C.h_facinfo(s.f, i) != 0 {
				return []int{1}
			}
			return []any{field(&i.vendor[0], 64), field(&i.url[0], 256), field(&i.email[0], 128), int(i.flags)}
		case "count":
			return []int{int(C.h_count(s.f))}
		case "class":
			i := (*C.struct_Steinberg_PClassInfo)(C.malloc(C.size_t(unsafe.Sizeof(C.struct_Steinberg_PClassInfo{}))))
			defer C.free(unsafe.Pointer(i))
			C.memset(unsafe.Pointer(i), 0x55, C.size_t(unsafe.Sizeof(*i)))
			if C.h_clsinfo(s.f, C.int(o.I("i")), i) != 0 {
				return []int{0}
			}
			uid := s.info.UID()
			o["got"] = []any{field(&i.name[0], 64), field(&i.category[0], 32), int(i.cardinality), b2i(bytes.Equal(uid[:], C.GoBytes(unsafe.Pointer(&i.cid[0]), 16)))}
			return []int{1}
		case "create":
			uid := s.info.UID()
			if !o.B("known") {
				uid[o.I("flip")] ^= 1
			}
			id := (*C.char)(C.CBytes(uid[:]))
			defer C.free(unsafe.Pointer(id))
			r := -1
			p := slot(func(q *unsafe.Pointer) { r = int(C.h_create(s.f, id, C.int(o.I("face")), q)) })
			if r == 0 && p != nil {
				x := &lifeObj{refs: 1, w: s.m.w, bad: s.m.bad}
				x.faces[o.I("face")%5] = p
				s.objs = append(s.objs, x)
			}
			return []int{b2i(r == 0), b2i(p != nil)}
		}
		panic("harness: unknown op")
	}
	if o.I("k") > len(s.objs) || s.objs[o.I("k")-1].refs == 0 {
		return []int{9}
	}
	x := s.objs[o.I("k")-1]
	switch o.S("op") {
	case "qi":
		from := x.face(o.I("from"))
		r := -1
		p := slot(func(q *unsafe.Pointer) { r = int(C.h_qi(from, C.int(o.I("face")), q)) })
		same := unknown(from) == unknown(x.any())
		if r == 0 {
			x.refs++
			if p == nil {
				return []int{1, 0, 0}
			}
			same = same && unknown(p) == unknown(from)
			if x.faces[o.I("face")] == nil {
				x.faces[o.I("face")] = p
			}
		}
		return []int{b2i(r == 0), b2i(p != nil), b2i(same)}
	case "addref":
		from := x.face(o.I("from"))
		x.refs++
		return []int{int(C.h_addref(from))}
	case "release":
		from := x.face(o.I("from"))
		x.refs--
		return []int{int(C.h_release(from))}
	case "storm":
		from := x.face(o.I("from"))
		storm(from)
		C.h_addref(from)
		return []int{int(C.h_release(from))}
	case "set":
		return []int{int(C.e_set((*C.ICtl)(x.face(4)), 7, C.double(float64(o.I("v"))/64)))}
	case "get":
		return []int{int(64 * float64(C.e_get((*C.ICtl)(x.face(4)), 7)))}
	case "init":
		*x.bad = o.I("bad")
		defer func() { *x.bad = 0 }()
		return []int{int(C.c_init((*C.IComp)(x.face(2))))}
	case "term":
		return []int{int(C.c_term((*C.IComp)(x.face(2))))}
	case "active":
		*x.bad = o.I("bad")
		defer func() { *x.bad = 0 }()
		return []int{int(C.c_active((*C.IComp)(x.face(2)), C.int(o.I("on"))))}
	case "setup":
		*x.bad = o.I("bad")
		defer func() { *x.bad = 0 }()
		return []int{int(C.p_setup((*C.IProc)(x.face(3)), 48000, 16))}
	}
	panic("harness: unknown op")
}

func ascii(r *rand.Rand, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = 33 + r.Intn(90)
	}
	return l
}

func genLife(r *rand.Rand, i int, tier string) []vh.Op {
	size := func(n int) int {
		if r.Intn(4) == 0 {
			return n - 3 + r.Intn(8)
		}
		return r.Intn(20)
	}
	register := func() vh.Op {
		return vh.Op{"op": "register", "none": r.Intn(12) == 0, "makes": r.Intn(6) > 0, "id": string(rune('a' + r.Intn(20))), "name": ascii(r, size(64)), "vendor": ascii(r, size(64)), "url": ascii(r, size(256)), "email": ascii(r, size(128))}
	}
	o := register()
	o["none"], o["makes"] = false, true
	ops := []vh.Op{o, {"op": "factory"}}
	for len(ops) < 36 {
		k := 1 + r.Intn(4)
		from := r.Intn(5)
		switch r.Intn(26) {
		case 0:
			if r.Intn(4) == 0 {
				ops = append(ops, register())
			}
		case 1:
			ops = append(ops, vh.Op{"op": "factory"})
		case 2:
			ops = append(ops, vh.Op{"op": "fqi", "face": r.Intn(7)})
		case 3:
			ops = append(ops, vh.Op{"op": "faddref"})
		case 4, 5:
			ops = append(ops, vh.Op{"op": "frelease"})
		case 6:
			ops = append(ops, vh.Op{"op": "finfo"})
		case 7:
			ops = append(ops, vh.Op{"op": "count"}, vh.Op{"op": "class", "i": []int{0, 0, 0, 1, -1, 2}[r.Intn(6)]})
		case 8, 9, 10, 11:
			c := vh.Op{"op": "create", "known": r.Intn(8) > 0, "flip": r.Intn(16), "face": 2}
			if r.Intn(2) == 0 {
				c["face"] = r.Intn(7)
			}
			ops = append(ops, c)
		case 12, 13:
			ops = append(ops, vh.Op{"op": "qi", "k": k, "from": from, "face": r.Intn(7)})
		case 14:
			ops = append(ops, vh.Op{"op": "addref", "k": k, "from": from})
		case 15, 16, 17:
			ops = append(ops, vh.Op{"op": "release", "k": k, "from": from})
		case 18:
			if r.Intn(10) == 0 {
				ops = append(ops, vh.Op{"op": "storm", "k": k, "from": from}, vh.Op{"op": "fstorm"})
			}
		case 19, 20:
			ops = append(ops, vh.Op{"op": "set", "k": k, "v": r.Intn(65)})
		case 21:
			ops = append(ops, vh.Op{"op": "get", "k": k})
		case 22:
			ops = append(ops, vh.Op{"op": "alive"})
		case 23:
			ops = append(ops, vh.Op{"op": "init", "k": k, "bad": r.Intn(3)}, vh.Op{"op": "term", "k": k})
		case 24:
			ops = append(ops, vh.Op{"op": []string{"active", "setup"}[r.Intn(2)], "k": k, "bad": r.Intn(3), "on": r.Intn(2)})
		case 25:
			ops = append(ops, vh.Op{"op": "module", "on": r.Intn(2)})
		}
	}
	return append(ops, vh.Op{"op": "alive"})
}

func init() {
	vh.Register(&vh.Domain{Name: "lifetime", New: func() vh.Subject { return &lifeSubj{} }, Gen: genLife, Quick: 600, Thorough: 4000})
}
