package main

import (
	"math/rand"

	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"verif/vh"
)

type idSubj struct{}

var knownIDs = map[string]string{"g": "com.vst3go.examples.gain", "f": "com.vst3go.examples.filter", "d": "com.vst3go.examples.delay", "a": "a", "m": "com.mycompany.myplugin", "e": "", "u": "org.example.Größe"}

func bytesOf(s string) []int {
	r := []int{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func (idSubj) Do(o vh.Op) any {
	b := []byte{}
	for _, x := range o.IL("id") {
		b = append(b, byte(x))
	}
	// everything else about the plugin is of no account
	i := fplugin.Info{ID: string(b), Name: o.S("name"), Vendor: o.S("name") + "v", Version: o.S("name") + "1"}
	if o.I("again") == 1 {
		i.UID()
	}
	u := i.UID()
	l := []int{}
	for _, x := range u {
		l = append(l, int(x))
	}
	o["got"] = l
	return []int{b2i(i.ValidateUID() == nil)}
}

func genID(r *rand.Rand, i int, tier string) []vh.Op {
	ids := [][]int{}
	for k := 0; k < 12; k++ {
		n := 1 + r.Intn(30)
		b := make([]int, n)
		for j := range b {
			b[j] = 33 + r.Intn(94)
		}
		switch { // near to one that is there
		case k > 6 && r.Intn(3) == 0:
			b = append(append([]int{}, ids[r.Intn(len(ids))]...), 33+r.Intn(90))
		case k > 6 && r.Intn(2) == 0:
			b = append([]int{}, ids[r.Intn(len(ids))]...)
			b[r.Intn(len(b))] ^= 1
		}
		ids = append(ids, b)
	}
	ops := []vh.Op{}
	for len(ops) < 20 {
		o := vh.Op{"op": "uid", "known": "", "name": string(rune('a' + r.Intn(26))), "again": r.Intn(2)}
		if r.Intn(3) == 0 {
			k := []string{"g", "f", "d", "a", "m", "e", "u"}[r.Intn(7)]
			o["known"], o["id"] = k, bytesOf(knownIDs[k])
		} else {
			o["id"] = ids[r.Intn(len(ids))]
			// "" and "a" are among the known
			if l := o["id"].([]int); len(l) == 1 && l[0] == 'a' {
				continue
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func init() {
	vh.Register(&vh.Domain{Name: "identity", New: func() vh.Subject { return idSubj{} }, Gen: genID, Quick: 900, Thorough: 3000})
}
