package layh

import (
	"archive/tar"
	"strings"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// deepLinks: a symlink three levels down, and entries beside, above and below it.
func deepLinks() [][]Ent {
	last = 'c'
	ls := [][]Ent{{{Kind: tar.TypeSymlink, Mode: 0o777, Name: "a/b/l", Link: nd.Pick("/", "/a/", "/a/b/", "../", "../../", "../../../", "./../", "") + comp()}}}
	for i := 0; i < nd.Q(1, 2); i++ {
		e := Ent{Mode: int64(nd.Byte()), Kind: []byte{tar.TypeReg, tar.TypeDir}[nd.Choose(2)], Name: nd.Pick("a/b/l/", "", "a/", "a/b/", "l/") + nd.Pick("", ".wh.") + comp()}
		if strings.Contains(e.Name, ".wh.") {
			e.Kind = tar.TypeReg
		}
		if e.Kind == tar.TypeReg {
			e.Body = nd.Bytes(1)
		}
		if nd.Flip() {
			ls = append(ls, []Ent{e})
		} else {
			ls[len(ls)-1] = append(ls[len(ls)-1], e)
		}
	}
	return ls
}

// EquivDeep: symlinks deep in the tree lead where they say.
func EquivDeep() { squashEquiv(deepLinks(), 1+nd.Choose(2)) }

// ViewDeep: symlinks deep in the tree lead where they say.
func ViewDeep() {
	ls := deepLinks()
	if nd.Flip() {
		ls = append([][]Ent{ls[0][:1]}, []Ent{{Kind: tar.TypeReg, Mode: 0o644, Name: nd.Pick("", "a/") + comp() + "/x", Body: nd.Bytes(1)}})
	}
	viewCheck(ls, nd.Pick("a/b/l", "a/b/l/x", "a/b"), false)
}

// EquivFar: long chains of symlinks are followed.
func EquivFar() {
	last = 'd'
	hops := []int{3, 12, 19}[nd.Choose(3)]
	abs := nd.Pick("", "/")
	l := []Ent{}
	to := "d"
	for i := 0; i < hops; i++ {
		nm := "l" + string([]byte{'a' + byte(i)})
		l = append(l, Ent{Name: nm, Kind: tar.TypeSymlink, Mode: 0o777, Link: abs + to})
		to = nm
	}
	e := Ent{Kind: tar.TypeReg, Mode: 0o644, Name: to + "/" + nd.Pick("", ".wh.") + comp(), Body: nd.Bytes(1)}
	ls := [][]Ent{l, {e}}
	if nd.Flip() {
		ls = [][]Ent{append(l, e)}
	}
	squashEquiv(ls, 1+nd.Choose(2))
}

// Outside: a layer that names something outside the image is refused, any other is not.
func Outside() {
	last = 'c'
	n := 1 + nd.Choose(nd.Q(3, 4))
	name, depth, out := "", 0, false
	if nd.Flip() {
		name, out = "/", true
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			name += "/"
		}
		switch nd.Choose(4) {
		case 0:
			name += ".."
			depth--
			out = out || depth < 0
		case 1:
			name += "."
		case 2:
			name += nd.Pick("..", ".", "...") + comp() // not special
			depth++
		default:
			name += nd.Pick("", ".wh.") + comp()
			depth++
		}
	}
	nd.Assume(depth > 0 || out)
	ls := [][]Ent{{{Kind: []byte{tar.TypeReg, tar.TypeDir}[nd.Choose(2)], Mode: 0o755, Name: name}}}
	if nd.Flip() {
		ls = append(ls, []Ent{{Kind: tar.TypeReg, Name: "x"}})
	}
	l, err := squash.Squash(pack(ls))
	_, lerr := squash.Load(pack(ls), nd.Flip())
	nd.Assert((err != nil) == out && (lerr != nil) == out, "a layer that reaches outside the image is accepted, or one that does not refused")
	if err == nil {
		for _, e := range RdLayer(l) {
			nd.Assert(e.Name != "" && e.Name[0] != '/' && !strings.HasPrefix(e.Name+"/", "../") && !strings.Contains(e.Name+"/", "/../"), "a squashed layer reaches outside the image")
		}
	}
	nd.Reach("end")
}

// special: a device or pipe, and another entry.
func special() [][]Ent {
	last = 'b'
	e := Ent{Kind: []byte{tar.TypeChar, tar.TypeBlock, tar.TypeFifo}[nd.Choose(3)], Mode: int64(nd.Byte()), Name: genPath(1 + nd.Choose(2))}
	f := genEnt(nd.Q(2, 3), false)
	ls := [][]Ent{{e}, {f}}
	switch nd.Choose(3) {
	case 0:
		ls = [][]Ent{{f}, {e}}
	case 1:
		ls = [][]Ent{{e, f}}
	}
	return ls
}

// EquivSpecial: devices and pipes are files like any other.
func EquivSpecial() { squashEquiv(special(), 1+nd.Choose(2)) }

// ViewSpecial: devices and pipes are files like any other.
func ViewSpecial() {
	ls := special()
	probe := "."
	if nd.Flip() {
		probe = genPath(1 + nd.Choose(2))
	}
	viewCheck(ls, probe, nd.Flip())
}
