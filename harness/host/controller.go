package main

// #include "com.h"
import "C"
import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/vh"
)

type ctlSubj struct {
	*inst
	h *C.HHandler
}

func (s *ctlSubj) Close() {
	s.inst.close()
	if s.h != nil {
		C.free(unsafe.Pointer(s.h))
	}
}

func text(v any) string {
	var b strings.Builder
	for _, c := range vh.ToList(v) {
		b.WriteRune(rune(vh.ToInt(c)))
	}
	return b.String()
}

// units reads a field up to its zero; a field without one gives what no text is.
func units(f []C.Steinberg_char16) []int {
	r := []int{}
	for _, u := range f {
		if u == 0 {
			return r
		}
		r = append(r, int(uint16(u)))
	}
	return []int{-1}
}

func (s *ctlSubj) Do(o vh.Op) any {
	var id C.uint32_t
	var v C.double
	if o["id"] != nil {
		id = C.uint32_t(uint32(o.I("id")))
	}
	if o["v"] != nil {
		v = C.double(float64(o.I("v")) / 64)
	}
	switch o.S("op") {
	case "create":
		p := &proc{params: param.NewRegistry()}
		for _, x := range o.L("pars") {
			q := vh.ToOp(x)
			mark := text(q["mark"])
			min := float64(q.I("min"))
			p.params.Add(param.New(uint32(q.I("id")), text(q["title"])).ShortName(text(q["short"])).Unit(text(q["units"])).
				Range(min, min+64*float64(q.I("w"))).Default(float64(q.I("def"))).Steps(int32(q.I("steps"))).Flags(uint32(q.I("flags"))).
				Formatter(func(x float64) string {
					if x != float64(int(x)) {
						return "?"
					}
					return mark + strconv.Itoa(int(x))
				}, func(t string) (float64, error) {
					if !strings.HasPrefix(t, mark) {
						return 0, fmt.Errorf("no mark")
					}
					n, err := strconv.Atoi(t[len(mark):])
					if strings.HasPrefix(t[len(mark):], "+") {
						return 0, fmt.Errorf("sign")
					}
					return float64(n), err
				}).Build())
			p.params.Get(uint32(q.I("id"))).UnitID = int32(q.I("unit"))
		}
		b := bus.NewBuilder()
		at := [2][2]int{}
		for _, x := range o.L("buses") {
			q := vh.ToOp(x)
			n, c, d := text(q["name"]), int32(q.I("chans")), q.I("dir")
			switch q.I("media")*4 + d*2 + q.I("type") {
			case 0:
				b.WithAudioInput(n, c)
			case 1:
				b.WithAuxInput(n, c)
			case 2:
				b.WithAudioOutput(n, c)
			case 3:
				b.WithAuxOutput(n, c)
			case 4:
				b.WithEventInput(n)
			default:
				b.WithEventOutput(n)
			}
			b.SetBusActive(bus.MediaType(q.I("media")), bus.Direction(d), int32(at[q.I("media")][d]), q.I("active") == 1)
			at[q.I("media")][d]++
		}
		p.buses = b.MustBuild()
		s.inst = create(guid("controller"), p, p)
		if s.inst == nil {
			return "not created"
		}
		return []int{1}
	case "count":
		return []int{int(C.e_count(s.ctl))}
	case "info":
		i := (*C.struct_Steinberg_Vst_ParameterInfo)(C.malloc(C.size_t(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{}))))
		defer C.free(unsafe.Pointer(i))
		C.memset(unsafe.Pointer(i), 0x55, C.size_t(unsafe.Sizeof(*i)))
		r := int(C.e_info(s.ctl, C.int(o.I("i")), i))
		if r == 0 {
			o["got"] = map[string]any{"id": int(i.id), "title": units(i.title[:]), "short": units(i.shortTitle[:]), "units": units(i.units[:]), "steps": int(i.stepCount),
				"def": int(64 * float64(i.defaultNormalizedValue)), "unit": int(i.unitId), "flags": int(i.flags)}
		}
		return []int{untouched(r, unsafe.Pointer(i), int(unsafe.Sizeof(*i)))}
	case "text":
		f := (*C.Steinberg_char16)(C.malloc(288))
		defer C.free(unsafe.Pointer(f))
		C.memset(unsafe.Pointer(f), 0x55, 288)
		r := int(C.e_text(s.ctl, id, v, (*C.int16_t)(unsafe.Pointer(f))))
		if r == 0 {
			o["got"] = units(unsafe.Slice(f, 128))
			r = -untouched(9, unsafe.Add(unsafe.Pointer(f), 256), 32) + 9 // nothing beyond
		}
		return []int{untouched(r, unsafe.Pointer(f), 288)}
	case "parse":
		l := o.IL("text")
		f := (*C.int16_t)(C.malloc(C.size_t(2*len(l) + 2)))
		defer C.free(unsafe.Pointer(f))
		for i, u := range append(l, 0) {
			unsafe.Slice(f, len(l)+1)[i] = C.int16_t(u)
		}
		d := (*C.double)(C.malloc(8))
		defer C.free(unsafe.Pointer(d))
		C.memset(unsafe.Pointer(d), 0x55, 8)
		r := int(C.e_parse(s.ctl, id, f, d))
		if r == 0 {
			o["got"] = int(64 * float64(*d))
		}
		return []int{untouched(r, unsafe.Pointer(d), 8)}
	case "plain":
		return []int{int(64 * float64(C.e_plain(s.ctl, id, v)))}
	case "norm":
		return []int{int(64 * float64(C.e_norm(s.ctl, id, v)))}
	case "get":
		return []int{int(64 * float64(C.e_get(s.ctl, id)))}
	case "set":
		return []int{int(C.e_set(s.ctl, id, v))}
	case "buses":
		return []int{int(C.c_buscount(s.comp, C.int(o.I("media")), C.int(o.I("dir"))))}
	case "businfo":
		i := (*C.struct_Steinberg_Vst_BusInfo)(C.malloc(C.size_t(unsafe.Sizeof(C.struct_Steinberg_Vst_BusInfo{}))))
		defer C.free(unsafe.Pointer(i))
		C.memset(unsafe.Pointer(i), 0x55, C.size_t(unsafe.Sizeof(*i)))
		r := int(C.c_businfo(s.comp, C.int(o.I("media")), C.int(o.I("dir")), C.int(o.I("i")), i))
		if r == 0 {
			o["got"] = map[string]any{"media": int(i.mediaType), "dir": int(i.direction), "chans": int(i.channelCount), "name": units(i.name[:]), "type": int(i.busType), "flags": int(i.flags)}
		}
		return []int{untouched(r, unsafe.Pointer(i), int(unsafe.Sizeof(*i)))}
	case "arrangement":
		a := (*C.uint64_t)(C.malloc(8))
		defer C.free(unsafe.Pointer(a))
		C.memset(unsafe.Pointer(a), 0x55, 8)
		r := int(C.p_getarr(s.aud, C.int(o.I("dir")), C.int(o.I("i")), a))
		if r == 0 {
			l := []int{}
			for i := 0; i < 64; i++ {
				if *a>>i&1 == 1 {
					l = append(l, i)
				}
			}
			o["got"] = l
		}
		return []int{untouched(r, unsafe.Pointer(a), 8)}
	case "handler":
		var h *C.HHandler
		if o.B("on") {
			if s.h == nil {
				s.h = C.h_handler()
			}
			h = s.h
		}
		return []int{int(C.e_handler(s.ctl, h))}
	case "told":
		if s.h == nil {
			return []int{0}
		}
		return []int{int(s.h.n)}
	case "host":
		switch o.S("what") {
		case "iomode":
			return []int{int(C.c_iomode(s.comp, C.int(o.I("k"))))}
		case "cid":
			id := (*C.char)(C.calloc(1, 18))
			defer C.free(unsafe.Pointer(id))
			C.memset(unsafe.Pointer(id), 0x55, 18)
			r := int(C.c_cid(s.comp, id))
			for _, x := range unsafe.Slice((*byte)(unsafe.Pointer(id)), 18)[16:] {
				if x != 0x55 {
					r = -1
				}
			}
			return []int{r}
		case "activate":
			return []int{int(C.c_actbus(s.comp, C.int(o.I("k")&1), C.int(o.I("k")>>1&1), 0, C.int(o.I("k")>>2&1)))}
		case "routing":
			return []int{int(C.c_routing(s.comp))}
		case "view":
			return []int{int(C.e_view(s.ctl))}
		case "init":
			return []int{int(C.e_init(s.ctl))}
		case "term":
			return []int{int(C.e_term(s.ctl))}
		case "size":
			return []int{int(C.p_size(s.aud, C.int(o.I("k")&1)))}
		}
		return "?"
	case "arrange":
		n, m := o.I("ins"), o.I("outs")
		a := (*C.uint64_t)(C.calloc(C.size_t(n+m+1), 8))
		defer C.free(unsafe.Pointer(a))
		for i := range unsafe.Slice(a, n+m) {
			unsafe.Slice(a, n+m)[i] = 3
		}
		return []int{int(C.p_arr(s.aud, a, C.int(n), (*C.uint64_t)(unsafe.Add(unsafe.Pointer(a), 8*n)), C.int(m)))}
	}
	panic("harness: unknown op")
}

func char(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 0xA0 + r.Intn(0x400)
	case 1:
		return 0x3000 + r.Intn(0x7000)
	case 2:
		return 0xE000 + r.Intn(0x1FF0)
	case 3:
		return 0x10000 + r.Intn(0x100000)
	}
	return 32 + r.Intn(94)
}
func chars(r *rand.Rand) []int {
	n := r.Intn(6)
	if r.Intn(6) == 0 {
		n = 118 + r.Intn(16)
	}
	only := r.Intn(3)
	l := []int{}
	for i := 0; i < n; i++ {
		if only == 0 {
			l = append(l, 32+r.Intn(94))
		} else {
			l = append(l, char(r))
		}
	}
	return l
}
func str(l []int) string {
	r := []rune{}
	for _, c := range l {
		r = append(r, rune(c))
	}
	return string(r)
}

func genCtl(r *rand.Rand, i int, tier string) []vh.Op {
	pars, buses := []any{}, []any{}
	ids := []int{}
	marks := [][]int{}
	mins, ws := []int{}, []int{}
	for k := r.Intn(5); k >= 0; k-- {
		id := 3*len(ids) + r.Intn(2)
		if r.Intn(6) == 0 {
			id = 0x7fff0000 + len(ids)
		}
		mark := chars(r)
		if r.Intn(3) > 0 && len(mark) > 3 {
			mark = mark[:3]
		}
		for len(mark) > 0 && mark[len(mark)-1] < 64 { // not to be taken for the number
			mark = mark[:len(mark)-1]
		}
		min, w := r.Intn(400)-200, 1+r.Intn(9)
		pars = append(pars, map[string]any{"id": id, "title": chars(r), "short": chars(r), "units": chars(r), "mark": mark, "min": min, "w": w, "def": min + w*(r.Intn(80)-8),
			"steps": r.Intn(5), "flags": r.Intn(1 << 17), "unit": r.Intn(5)})
		ids, marks, mins, ws = append(ids, id), append(marks, mark), append(mins, min), append(ws, w)
	}
	mk := func(media, dir, typ int) {
		c := 1 + r.Intn(3)
		if r.Intn(3) == 0 {
			c = 1 + r.Intn(12)
		}
		if media == 1 {
			c, typ = 1, 0
		}
		buses = append(buses, map[string]any{"media": media, "dir": dir, "type": typ, "chans": c, "name": chars(r), "active": r.Intn(2)})
	}
	mk(0, 1, 0)
	for k := r.Intn(6); k > 0; k-- {
		mk(r.Intn(4)/3, r.Intn(2), r.Intn(2))
	}
	ops := []vh.Op{{"op": "create", "pars": pars, "buses": buses}, {"op": "count"}}
	for len(ops) < 28 {
		k := r.Intn(len(ids))
		id := ids[k]
		if r.Intn(6) == 0 {
			id = r.Intn(20)
			for j := range ids {
				if ids[j] == id {
					k = j
				}
			}
		}
		known := id == ids[k]
		switch r.Intn(15) {
		case 12:
			ops = append(ops, vh.Op{"op": "handler", "on": r.Intn(4) > 0})
		case 13:
			ops = append(ops, vh.Op{"op": "told"})
		case 14:
			ops = append(ops, vh.Op{"op": "host", "what": []string{"iomode", "cid", "activate", "routing", "view", "init", "term", "size"}[r.Intn(8)], "k": r.Intn(8)})
		case 0, 1:
			ops = append(ops, vh.Op{"op": "info", "i": r.Intn(len(ids)+2) - 1})
		case 2, 3:
			ops = append(ops, vh.Op{"op": "text", "id": id, "v": r.Intn(65)})
		case 4, 5:
			t := str(marks[k]) + strconv.Itoa(mins[k]+ws[k]*(r.Intn(80)-8))
			u := []int{}
			for _, x := range utf16.Encode([]rune(t)) {
				u = append(u, int(x))
			}
			if r.Intn(3) == 0 { // not quite
				at := r.Intn(len(u))
				u = append(u[:at:at], u[at+r.Intn(2):]...)
				if r.Intn(2) == 0 {
					u = append(u, []int{0xD800, 0xDC00, 0xFFFF, 32, 65}[r.Intn(5)])
				}
			}
			ops = append(ops, vh.Op{"op": "parse", "id": id, "text": u})
		case 6:
			ops = append(ops, vh.Op{"op": "plain", "id": id, "v": r.Intn(65)})
		case 7:
			x := r.Intn(65)
			if known {
				x = 64 * (mins[k] + ws[k]*x)
			}
			ops = append(ops, vh.Op{"op": "norm", "id": id, "v": x})
		case 8:
			ops = append(ops, vh.Op{"op": "set", "id": id, "v": r.Intn(72) - 4}, vh.Op{"op": "get", "id": id})
		case 9:
			ops = append(ops, vh.Op{"op": "get", "id": id})
		case 10:
			ops = append(ops, vh.Op{"op": "buses", "media": r.Intn(2), "dir": r.Intn(2)}, vh.Op{"op": "businfo", "media": r.Intn(2), "dir": r.Intn(2), "i": r.Intn(5) - 1})
		case 11:
			ops = append(ops, vh.Op{"op": "arrangement", "dir": r.Intn(2), "i": r.Intn(4) - 1}, vh.Op{"op": "arrange", "ins": r.Intn(4) + r.Intn(2)*r.Intn(20), "outs": r.Intn(4) + r.Intn(2)*r.Intn(20)})
		}
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "controller", New: func() vh.Subject { return &ctlSubj{} }, Gen: genCtl, Quick: 800, Thorough: 6000})
}

// untouched is r, or -9 when a call failed and yet wrote where it was to answer.
func untouched(r int, p unsafe.Pointer, n int) int {
	if r == 0 {
		return 0
	}
	for _, b := range unsafe.Slice((*byte)(p), n) {
		if b != 0x55 {
			return -9
		}
	}
	return r
}
