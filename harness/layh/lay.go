// Package layh checks the layer code (squash, fsutil, dir) against a small
// model of extracting layers.
package layh

import (
	"archive/tar"
	"bytes"
	"errors"
	"io"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

// Ent is one tar entry.
type Ent struct {
	Name  string
	Kind  byte
	Link  string
	Mode  int64
	UID   int
	GID   int
	Uname string
	Time  int64 // seconds
	Body  []byte
}

// shortReader returns at most three bytes at a time.
type shortReader struct{ r *bytes.Reader }

func (s shortReader) Read(b []byte) (int, error) {
	if len(b) > 3 {
		b = b[:3]
	}
	return s.r.Read(b)
}

// MkLayer packs entries in a layer.
func MkLayer(ents []Ent) ociv1.Layer {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range ents {
		if err := w.WriteHeader(&tar.Header{Name: e.Name, Typeflag: e.Kind, Linkname: e.Link, Mode: e.Mode, Uid: e.UID, Gid: e.GID, Uname: e.Uname,
			Size: int64(len(e.Body)), ModTime: time.Unix(e.Time, 0)}); err != nil {
			nd.SymSkip()
		}
		if len(e.Body) > 0 {
			if _, err := w.Write(e.Body); err != nil {
				nd.SymSkip()
			}
		}
	}
	if err := w.Close(); err != nil {
		nd.SymSkip()
	}
	b := buf.Bytes()
	l, err := ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(shortReader{bytes.NewReader(b)}), nil })
	if err != nil {
		nd.SymSkip()
	}
	return l
}

// RdLayer lists a layer's entries.
func RdLayer(l ociv1.Layer) []Ent {
	var r []Ent
	rd, err := l.Uncompressed()
	nd.Assert(err == nil, "the layer cannot be read")
	t := tar.NewReader(rd)
	for {
		h, err := t.Next()
		if err != nil {
			nd.Assert(errors.Is(err, io.EOF), "the layer is not a readable tar")
			break
		}
		b, err := io.ReadAll(t)
		nd.Assert(err == nil, "the layer is not a readable tar")
		nd.Assert(int64(len(b)) == h.Size, "an entry's size is not its length")
		r = append(r, Ent{h.Name, h.Typeflag, h.Linkname, h.Mode, h.Uid, h.Gid, h.Uname, h.ModTime.Unix(), b})
	}
	nd.Assert(rd.Close() == nil, "closing the layer fails")
	return r
}

// Dump shows entry names for observations.
func Dump(es []Ent) string {
	s := ""
	for _, e := range es {
		s += string([]byte{e.Kind}) + e.Name + "|" + e.Link + ";"
	}
	return s
}

// ---- extraction model ----

const implied = 0 // kind of a directory that no entry names

type node struct {
	path string // "" is the root
	e    Ent
}

// FS is an extracted tree.
type FS struct {
	n   []node
	was []node // the base
	err bool   // symlink loop
	odd bool   // a whiteout below a non-directory, or an entry below a file of the base
}

func (t *FS) wasFile(p string) bool {
	for _, x := range t.was {
		if !isDir(x.e.Kind) && x.path == p {
			return true
		}
	}
	return false
}

func (t *FS) find(p string) int {
	for i := range t.n {
		if len(t.n[i].path) == len(p) && nd.SymBranch(t.n[i].path == p) {
			return i
		}
	}
	return -1
}

func under(dir, p string) bool {
	if dir == "" {
		return p != ""
	}
	return len(p) > len(dir) && p[len(dir)] == '/' && p[:len(dir)] == dir
}

func (t *FS) rmUnder(dir string) {
	var k []node
	for _, x := range t.n {
		if nd.SymBranch(under(dir, x.path)) {
			continue
		}
		k = append(k, x)
	}
	t.n = k
}

func (t *FS) rm(p string) {
	t.rmUnder(p)
	if i := t.find(p); i >= 0 {
		var k []node
		k = append(k, t.n[:i]...)
		t.n = append(k, t.n[i+1:]...)
	}
}

func (t *FS) put(p string, e Ent) {
	if i := t.find(p); i >= 0 {
		t.n[i].e = e
		return
	}
	t.n = append(t.n, node{p, e})
}

func isDir(k byte) bool { return k == implied || k == tar.TypeDir }

func join(d, c string) string {
	if d == "" {
		return c
	}
	return d + "/" + c
}

func parent(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func split(p string) []string {
	var r []string
	c := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			if c != "" {
				r = append(r, c)
			}
			c = ""
		} else {
			c += p[i : i+1]
		}
	}
	if c != "" {
		r = append(r, c)
	}
	return r
}

// walk resolves comps below dir to a real directory; with create, missing
// directories appear and non-directories in the way are replaced.
func (t *FS) walk(dir string, comps []string, create bool, depth int) (string, bool) {
	cur := dir
	for _, c := range comps {
		if c == "." {
			continue
		}
		if c == ".." {
			cur = parent(cur)
			continue
		}
		p := join(cur, c)
		i := t.find(p)
		switch {
		case i < 0:
			if !create {
				return "", false
			}
			t.put(p, Ent{Kind: implied})
			cur = p
		case t.n[i].e.Kind == tar.TypeSymlink:
			if depth > 20 {
				t.err = true
				return "", false
			}
			l := t.n[i].e.Link
			from := cur
			if l[0] == '/' {
				from = ""
			}
			d, ok := t.walk(from, split(l), create, depth+1)
			if !ok {
				return "", false
			}
			cur = d
		case isDir(t.n[i].e.Kind):
			cur = p
		default:
			if !create || t.wasFile(p) {
				t.odd = true
				return "", false
			}
			t.rm(p)
			t.put(p, Ent{Kind: implied})
			cur = p
		}
	}
	return cur, true
}

func clean(p string) string {
	var o []string
	for _, c := range split(p) {
		if c == "." {
			continue
		}
		if c == ".." {
			if len(o) > 0 {
				o = o[:len(o)-1]
			}
			continue
		}
		o = append(o, c)
	}
	r := ""
	for i, c := range o {
		if i > 0 {
			r += "/"
		}
		r += c
	}
	return r
}

func isWh(b string) bool { return len(b) >= 4 && b[:4] == ".wh." }

// Apply extracts a layer: first its whiteouts, then its entries in order.
func (t *FS) Apply(es []Ent) {
	for _, e := range es {
		p := clean(e.Name)
		b := base(p)
		if !isWh(b) {
			continue
		}
		d, ok := t.walk("", split(parent(p)), false, 0)
		if t.err {
			return
		}
		if !ok {
			continue
		}
		if b == ".wh..wh..opq" {
			t.rmUnder(d)
		} else {
			t.rm(join(d, b[4:]))
		}
	}
	for _, e := range es {
		p := clean(e.Name)
		b := base(p)
		if isWh(b) {
			continue
		}
		if p == "" {
			t.put("", e)
			continue
		}
		d, ok := t.walk("", split(parent(p)), true, 0)
		if !ok {
			return
		}
		p = join(d, b)
		i := t.find(p)
		if i >= 0 && !(e.Kind == tar.TypeDir && isDir(t.n[i].e.Kind)) {
			t.rm(p)
		}
		t.put(p, e)
	}
}

func sameEnt(a, b Ent) bool {
	return a.Kind == b.Kind && a.Link == b.Link && a.Mode == b.Mode && a.UID == b.UID && a.GID == b.GID && a.Uname == b.Uname && a.Time == b.Time && string(a.Body) == string(b.Body)
}

// subset: every explicitly recorded node of a is in b with the same attributes;
// with loose, a directory that b only implies may have any attributes in a.
func subset(a, b *FS, loose bool, msg string) {
	for _, x := range a.n {
		if x.e.Kind == implied {
			continue
		}
		i := b.find(x.path)
		nd.Assert(i >= 0, msg+": a path is missing")
		if i < 0 {
			continue
		}
		if loose && b.n[i].e.Kind == implied {
			nd.Assert(x.e.Kind == tar.TypeDir, msg+": a path has another type, content or attribute")
			continue
		}
		nd.Assert(sameEnt(x.e, b.n[i].e), msg+": a path has another type, content or attribute")
	}
}
