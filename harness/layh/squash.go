package layh

import (
	"archive/tar"
	"errors"
	"io"
	"path"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var last byte = 'z'

// comp is a symbolic path component.
func comp() string {
	c := nd.Byte()
	if anyName {
		nd.Assume(c > 0 && c < 0x80 && c != '/' && c != '.')
		return string([]byte{c})
	}
	nd.Assume(c >= 'a' && c <= last)
	return string([]byte{c})
}

func genPath(depth int) string {
	p := comp()
	for i := 1; i < depth; i++ {
		p += "/" + comp()
	}
	return p
}

// genEnt makes an entry: file, directory, symlink, whiteout or opaque marker.
func genEnt(maxDepth int, links bool) Ent {
	e := Ent{Mode: int64(nd.Byte()), UID: int(nd.Byte()), Time: int64(nd.Byte())}
	k := nd.Choose(5)
	if k == 2 && !links {
		nd.SymSkip()
	}
	d := 1 + nd.Choose(maxDepth)
	switch k {
	case 0:
		e.Kind = tar.TypeReg
		e.Name = genPath(d)
		e.Body = []byte{nd.Byte()}
	case 1:
		e.Kind = tar.TypeDir
		e.Name = genPath(d)
	case 2:
		e.Kind = tar.TypeSymlink
		e.Name = genPath(d)
		switch nd.Choose(3) {
		case 0:
			e.Link = comp()
		case 1:
			e.Link = "/" + comp()
		case 2:
			e.Link = "../" + comp()
		}
	case 3:
		e.Kind = tar.TypeReg
		if d > 1 {
			e.Name = genPath(d-1) + "/"
		}
		e.Name += ".wh." + comp()
	case 4:
		e.Kind = tar.TypeReg
		if d > 1 {
			e.Name = genPath(d-1) + "/"
		}
		e.Name += ".wh..wh..opq"
	}
	return e
}

func genBase(d int) *FS {
	t := &FS{}
	t.put("", Ent{Kind: tar.TypeDir, Mode: 0o755})
	p := comp()
	for i := 1; i < d; i++ {
		t.put(p, Ent{Kind: tar.TypeDir, Mode: 0o701})
		p += "/" + comp()
	}
	t.put(p, Ent{Kind: tar.TypeReg, Mode: 0o604, Body: []byte("base")})
	t.was = t.n
	return t
}

func (t *FS) clone() *FS { return &FS{n: append([]node{}, t.n...), was: t.was} }

// genLayers deals n entries over layers.
func genLayers(n int, maxDepth int, links bool) [][]Ent {
	var ls [][]Ent
	var cur []Ent
	for i := 0; i < n; i++ {
		cur = append(cur, genEnt(maxDepth, links))
		if i == n-1 || nd.Flip() {
			ls = append(ls, cur)
			cur = nil
		}
	}
	return ls
}

func pack(ls [][]Ent) []ociv1.Layer {
	var r []ociv1.Layer
	for _, l := range ls {
		r = append(r, MkLayer(l))
	}
	return r
}

func squashEquiv(ls [][]Ent, bd int) {
	t := genBase(bd)
	want := t.clone()
	for _, l := range ls {
		want.Apply(l)
	}
	if want.odd {
		nd.SymSkip() // not a well-formed changeset
	}
	out, err := squash.Squash(pack(ls))
	if want.err {
		return
	}
	nd.Assert(err == nil, "squash fails on extractable layers")
	if err != nil {
		return
	}
	sq := RdLayer(out)
	nd.Observe("out", Dump(sq))
	got := t.clone()
	got.Apply(sq)
	subset(want, got, false, "squashing loses something")
	subset(got, want, true, "squashing adds something")
	nd.Reach("end")
}

// EquivPair: two entries, any names.
func EquivPair() {
	squashEquiv(genLayers(2, nd.Q(2, 3), true), 1+nd.Choose(3))
}

// EquivHeader: every header field of the entry that is last for a path is kept.
func EquivHeader() {
	mk := func(name string) raw {
		r := genRaw([]byte{tar.TypeReg, tar.TypeDir, tar.TypeChar, tar.TypeFifo, tar.TypeSymlink}[nd.Choose(5)], 1)
		r.h.Name = name
		r.h.ModTime = time.Unix(int64(nd.SymU16()), 0)
		if nd.Flip() {
			r.h.PAXRecords = map[string]string{"SCHILY.xattr.user." + nd.Pick("x", "y"): lower()}
		}
		return r
	}
	es := []raw{mk("a"), mk("a")}
	kept := es[1:]
	if nd.Flip() {
		es = append(es, raw{h: tar.Header{Typeflag: tar.TypeReg, Name: "b", Mode: 0o644, ModTime: time.Unix(9, 0)}, b: nd.Bytes(1)})
		kept = es[1:]
	} else if es[0].h.Typeflag == tar.TypeDir && nd.Flip() {
		c := raw{h: tar.Header{Typeflag: tar.TypeReg, Name: "a/c", Mode: 0o644, ModTime: time.Unix(9, 0)}}
		es = append([]raw{es[0], c}, es[1:]...)
		kept = es[2:]
		if kept[0].h.Typeflag == tar.TypeDir {
			kept = es[1:]
		}
	}
	var ls []ociv1.Layer
	if nd.Flip() {
		ls = []ociv1.Layer{rawLayer(es)}
	} else {
		k := 1 + nd.Choose(len(es)-1)
		ls = []ociv1.Layer{rawLayer(es[:k]), rawLayer(es[k:])}
	}
	out, err := squash.Squash(ls)
	nd.Assert(err == nil, "squash fails on extractable layers")
	rd, err := out.Uncompressed()
	nd.Assert(err == nil, "the layer cannot be read")
	t := tar.NewReader(rd)
	n := 0
	for {
		h, err := t.Next()
		if err != nil {
			nd.Assert(errors.Is(err, io.EOF), "the layer is not a readable tar")
			break
		}
		b, err := io.ReadAll(t)
		nd.Assert(err == nil, "the layer is not a readable tar")
		if isWh(path.Base(h.Name)) {
			continue
		}
		n++
		ok := false
		for _, e := range kept {
			x := *h
			x.Name = path.Clean(x.Name)
			if x.Name == e.h.Name && rawEq(raw{x, b}, e) && x.ModTime.Equal(e.h.ModTime) {
				ok = len(h.PAXRecords) >= len(e.h.PAXRecords)
				for _, k := range []string{"SCHILY.xattr.user.x", "SCHILY.xattr.user.y"} {
					v, have := e.h.PAXRecords[k]
					w, got := h.PAXRecords[k]
					ok = ok && v == w && have == got
				}
			}
		}
		nd.Assert(ok, "squashing changes an entry's header")
	}
	nd.Assert(n == len(kept), "squashing loses or adds an entry")
	nd.Reach("end")
}

// EquivPlain: three or more files, directories and whiteouts.
func EquivPlain() {
	last = byte(nd.Q('b', 'c'))
	squashEquiv(genLayers(3, 2, false), 2+nd.Choose(nd.Q(1, 2)))
}

// EquivLinks: entries written through a symlink.
func EquivLinks() {
	last = 'b'
	if nd.SymThorough() {
		squashEquiv(genLayers(3, 2, true), 2)
		return
	}
	d := 1 + nd.Choose(2)
	l := Ent{Kind: tar.TypeSymlink, Mode: 0o777, Name: genPath(d)}
	if d == 1 {
		l.Link = nd.Pick("", "/") + comp()
	} else {
		l.Link = nd.Pick("", "../") + comp()
	}
	ls := [][]Ent{{l}}
	n := 0
	for i := 0; i < 2; i++ {
		e := genEnt(2, false)
		if nd.Flip() {
			ls = append(ls, []Ent{e})
			n++
		} else {
			ls[n] = append(ls[n], e)
		}
	}
	squashEquiv(ls, 2)
}

func chain() [][]Ent {
	last = 'c'
	var ls [][]Ent
	var cur []Ent
	n := nd.Q(3, 4)
	for i := 0; i < n; i++ {
		var e Ent
		if i < 2 {
			e = Ent{Kind: tar.TypeSymlink, Mode: 0o777, Name: comp()}
			switch {
			case i == 0 && !nd.SymThorough():
				e.Name, e.Link = "a", nd.Pick("b", "/b")
			case !nd.SymThorough():
				e.Link = nd.Pick("c", "/c", "a", "../c")
			default:
				e.Link = nd.Pick("", "/", "./", "../") + comp()
			}
			if i == 1 && nd.SymThorough() && nd.Flip() {
				e.Name = comp() + "/" + comp()
			}
		} else {
			e = genEnt(2, false)
		}
		cur = append(cur, e)
		if i == n-1 || nd.Flip() {
			ls = append(ls, cur)
			cur = nil
		}
	}
	return ls
}

// EquivChain: symlinks to symlinks, and an entry that may be below one.
func EquivChain() { squashEquiv(chain(), 2) }
