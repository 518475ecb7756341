package layh

import (
	"archive/tar"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var anyName bool

func same(a, b []Ent) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = r && a[i].Name == b[i].Name && sameEnt(a[i], b[i])
	}
	return r
}

// canonical checks the form of a squashed layer.
func canonical(es []Ent) {
	for i, e := range es {
		p := e.Name
		if e.Kind == tar.TypeDir {
			nd.Assert(p[len(p)-1] == '/', "a directory entry lacks the trailing slash")
			p = p[:len(p)-1]
		}
		if p == "." {
			nd.Assert(i == 0, "the root entry is not first")
			continue
		}
		nd.Assert(p != "" && p[0] != '/', "an entry name is not relative")
		for _, c := range splitAll(p) {
			nd.Assert(c != "" && c != "." && c != "..", "an entry name is not clean")
		}
		for j := 0; j < i; j++ {
			q := es[j].Name
			if es[j].Kind == tar.TypeDir {
				q = q[:len(q)-1]
			}
			if q == "." {
				continue
			}
			nd.Assert(q != p, "a path is listed twice")
			nd.Assert(!nd.SymBranch(under(p, q)), "an entry precedes its directory")
			// order: compare at the first differing component
			a, b := splitAll(q), splitAll(p)
			k := 0
			for k < len(a) && k < len(b) && nd.SymBranch(a[k] == b[k]) {
				k++
			}
			if k == len(a) || k == len(b) {
				continue
			}
			wa, wb := k == len(a)-1 && isWh(a[k]), k == len(b)-1 && isWh(b[k])
			if wa != wb {
				nd.Assert(wa, "a whiteout is listed after its siblings")
			} else if !wa {
				nd.Assert(a[k] < b[k], "siblings are not sorted")
			}
		}
	}
}

func splitAll(p string) []string {
	var r []string
	c := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			r = append(r, p[c:i])
			c = i + 1
		}
	}
	return r
}

// Canon: form, reproducibility and idempotence of the output, any names.
func Canon() {
	anyName = true
	canon(genLayers(2, nd.Q(2, 3), true))
}

// Canon3: more entries over few names.
func Canon3() {
	last = 'b'
	canon(genLayers(3, nd.Q(1, 2), true))
}

func canon(ls [][]Ent) {
	out, err := squash.Squash(pack(ls))
	if err != nil {
		return
	}
	es := RdLayer(out)
	nd.Observe("out", Dump(es))
	canonical(es)
	nd.Assert(same(es, RdLayer(out)), "reading the layer twice gives different entries")
	again, err := squash.Squash(pack([][]Ent{es}))
	nd.Assert(err == nil, "a squashed layer cannot be squashed")
	if err == nil {
		nd.Assert(same(es, RdLayer(again)), "squashing a squashed layer changes it")
	}
	nd.Reach("end")
}

// MapOrder: the output does not depend on map iteration order.
func MapOrder() {
	last = byte(nd.Q('c', 'd'))
	d := nd.Pick("", "a/")
	var l []Ent
	for i := 0; i < 3; i++ {
		e := Ent{Kind: tar.TypeReg, Name: d + comp(), Body: []byte{nd.Byte()}}
		if i == 2 {
			switch nd.Choose(4) {
			case 1:
				e.Name = d + ".wh." + comp()
			case 2:
				e.Name = d + ".wh..wh..opq"
			case 3:
				e.Name += "/" + comp()
			}
		}
		l = append(l, e)
	}
	var ls [][]Ent
	switch nd.Choose(3) {
	case 0:
		ls = [][]Ent{l}
	case 1:
		ls = [][]Ent{l[:2], l[2:]}
	case 2:
		ls = [][]Ent{l[:1], l[1:]}
	}
	a, err := squash.Squash(pack(ls))
	nd.Assert(err == nil, "squash fails")
	nd.SymMapMode(2)
	b, err := squash.Squash(pack(ls))
	nd.SymMapMode(0)
	nd.Assert(err == nil, "squash fails")
	nd.Assert(same(RdLayer(a), RdLayer(b)), "repeating the squash gives another layer")
	canonical(RdLayer(b))
	nd.Reach("end")
}

// Order: entries for unrelated paths give the same layer in any order.
func Order() {
	anyName = true
	a, b := genEnt(2, false), genEnt(2, false)
	nd.Assume(!isWh(base(a.Name)) && !isWh(base(b.Name)))
	if nd.SymBranch(a.Name == b.Name || under(a.Name, b.Name) || under(b.Name, a.Name)) {
		return
	}
	var l1, l2 [][]Ent
	l1 = [][]Ent{{a, b}}
	switch nd.Choose(3) {
	case 0:
		l2 = [][]Ent{{b, a}}
	case 1:
		l2 = [][]Ent{{b}, {a}}
	case 2:
		l2 = [][]Ent{{a}, {b}}
	}
	x, err := squash.Squash(pack(l1))
	nd.Assert(err == nil, "squash fails")
	y, err := squash.Squash(pack(l2))
	nd.Assert(err == nil, "squash fails")
	nd.Assert(same(RdLayer(x), RdLayer(y)), "the layer depends on the order of unrelated entries")
	nd.Reach("end")
}
