package layh

import (
	"archive/tar"
	"errors"
	"io"
	"io/fs"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// stat resolves p including a final symlink; -1 if there is nothing.
func (t *FS) stat(p string, depth int) int {
	d, ok := t.walk("", split(parent(p)), false, 0)
	if !ok {
		return -1
	}
	for depth < 20 {
		q := join(d, base(p))
		i := t.find(q)
		if i < 0 || t.n[i].e.Kind != tar.TypeSymlink {
			return i
		}
		l := t.n[i].e.Link
		from := d
		if l[0] == '/' {
			from = ""
		}
		cs := split(l)
		if len(cs) == 0 || cs[len(cs)-1] == ".." || cs[len(cs)-1] == "." {
			d, ok = t.walk(from, cs, false, 0)
			if !ok {
				return -1
			}
			return t.find(d)
		}
		d, ok = t.walk(from, cs[:len(cs)-1], false, 0)
		if !ok {
			return -1
		}
		p = cs[len(cs)-1]
		depth++
	}
	return -1
}

// onlyImplied: nothing but implied directories is known at or below p.
func (t *FS) onlyImplied(p string) bool {
	r := true
	for _, x := range t.n {
		if x.e.Kind != implied && nd.SymBranch(x.path == p || under(p, x.path)) {
			r = false
		}
	}
	return r
}

func wantMode(e Ent) fs.FileMode {
	m := fs.FileMode(e.Mode & 0o777)
	switch e.Kind {
	case tar.TypeDir:
		m |= fs.ModeDir
	case tar.TypeSymlink:
		m |= fs.ModeSymlink
	case tar.TypeChar:
		m |= fs.ModeDevice | fs.ModeCharDevice
	case tar.TypeBlock:
		m |= fs.ModeDevice
	case tar.TypeFifo:
		m |= fs.ModeNamedPipe
	}
	return m
}

func viewCheck(ls [][]Ent, probe string, omit bool) {
	t := &FS{}
	t.put("", Ent{Kind: implied})
	for _, l := range ls {
		t.Apply(l)
	}
	if t.odd {
		nd.SymSkip()
	}
	v, err := squash.Load(pack(ls), omit)
	if t.err {
		return
	}
	nd.Assert(err == nil, "Load fails on extractable layers")
	if err != nil {
		return
	}
	i := 0
	if probe != "." {
		i = t.stat(probe, 0)
		t.odd, t.err = false, false
	}
	f, err := v.Open(probe)
	if i < 0 {
		if err == nil {
			// a directory that only a whiteout mentions may or may not show
			_, serr := f.Stat()
			ok := serr != nil
			if d, isd := f.(fs.ReadDirFile); isd && ok {
				l, _ := d.ReadDir(-1)
				for _, x := range l {
					ok = ok && x.IsDir()
				}
			}
			nd.Assert(ok, "a path that does not exist can be opened")
		}
		nd.Reach("absent")
		return
	}
	p := t.n[i].path
	if err != nil {
		nd.Assert(t.onlyImplied(p), "a path that exists cannot be opened")
		return
	}
	e := t.n[i].e
	if e.Kind != implied {
		st, err := f.Stat()
		nd.Assert(err == nil, "an existing file cannot be stat'ed")
		nd.Assert(st.Mode() == wantMode(e), "the view reports another mode")
		nd.Assert(st.ModTime().Unix() == e.Time, "the view reports another modification time")
		nd.Assert(st.IsDir() == (e.Kind == tar.TypeDir), "the view reports another type")
		nd.Assert(e.Kind == tar.TypeDir || st.Size() == int64(len(e.Body)), "the view reports another size")
		if probe != "." {
			nd.Assert(st.Name() == base(probe), "the view reports another name")
		}
	}
	if e.Kind == tar.TypeReg {
		if omit {
			if len(e.Body) > 0 {
				_, err := io.ReadAll(f)
				nd.Assert(err != nil, "reading content that was not kept does not fail")
			}
		} else {
			b := make([]byte, 0, 4)
			buf := make([]byte, 1+nd.Choose(2))
			for {
				n, err := f.Read(buf)
				b = append(b, buf[:n]...)
				if err != nil {
					nd.Assert(errors.Is(err, io.EOF), "reading a file fails")
					break
				}
				nd.Assert(n > 0, "Read makes no progress")
				if n == 0 {
					break
				}
			}
			nd.Assert(string(b) == string(e.Body), "the view has other content")
		}
		nd.Reach("file")
	} else if e.Kind != tar.TypeDir && e.Kind != implied {
		if d, isd := f.(fs.ReadDirFile); isd {
			_, err := d.ReadDir(-1)
			nd.Assert(err != nil, "a device or a pipe can be listed")
		}
		nd.Reach("special")
	} else {
		d, ok := f.(fs.ReadDirFile)
		nd.Assert(ok, "a directory cannot be listed")
		var got []fs.DirEntry
		if nd.Flip() {
			l, err := d.ReadDir(-1)
			nd.Assert(err == nil, "listing a directory fails")
			got = l
		} else {
			for k := 0; k < 6; k++ {
				l, err := d.ReadDir(1)
				if err != nil {
					nd.Assert(errors.Is(err, io.EOF), "listing a directory fails")
					break
				}
				got = append(got, l...)
			}
		}
		for k, g := range got {
			if k > 0 {
				nd.Assert(got[k-1].Name() < g.Name(), "a listing is not sorted or names a child twice")
			}
			j := t.find(join(p, g.Name()))
			if j < 0 {
				nd.Assert(t.onlyImplied(join(p, g.Name())) && g.IsDir(), "a listing names something that does not exist")
				continue
			}
			c := t.n[j].e
			if c.Kind != implied {
				nd.Assert(g.IsDir() == (c.Kind == tar.TypeDir), "a listing gives another type")
				nd.Assert((g.Type()&fs.ModeSymlink != 0) == (c.Kind == tar.TypeSymlink), "a listing gives another type")
				in, err := g.Info()
				nd.Assert(err == nil && in.Mode() == wantMode(c), "a listing gives another mode")
			}
		}
		for _, x := range t.n {
			if x.path == "" || x.e.Kind == implied || !(parent(x.path) == p) {
				continue
			}
			have := false
			for _, g := range got {
				have = have || g.Name() == base(x.path)
			}
			nd.Assert(have, "a listing misses a child")
		}
		nd.Reach("dir")
	}
	nd.Assert(f.Close() == nil, "closing fails")
}

// View: entries without symlinks.
func View() {
	last = byte(nd.Q('b', 'c'))
	ls := genLayers(3, 2, false)
	probe := "."
	if nd.Flip() {
		probe = genPath(1 + nd.Choose(2))
	}
	viewCheck(ls, probe, false)
}

// ViewOmit: a view without contents.
func ViewOmit() {
	last = byte(nd.Q('b', 'c'))
	ls := genLayers(2, 2, true)
	probe := "."
	if nd.Flip() {
		probe = genPath(1 + nd.Choose(2))
	}
	viewCheck(ls, probe, true)
}

// ViewLinks: one symlink and other entries.
func ViewLinks() {
	last = byte(nd.Q('b', 'c'))
	d := 1 + nd.Choose(2)
	l := Ent{Kind: tar.TypeSymlink, Mode: 0o777, Name: genPath(d)}
	if d == 1 {
		l.Link = nd.Pick("", "/") + comp()
	} else {
		l.Link = nd.Pick("", "../") + comp()
	}
	ls := [][]Ent{{l}}
	n := 0
	for i := 0; i < nd.Q(1, 2); i++ {
		e := genEnt(2, true)
		if nd.Flip() {
			ls = append(ls, []Ent{e})
			n++
		} else {
			ls[n] = append(ls[n], e)
		}
	}
	probe := "."
	if nd.Flip() {
		probe = genPath(1 + nd.Choose(2))
	}
	viewCheck(ls, probe, false)
}

// Hidden: whiteout markers are not files.
func Hidden() {
	last = 'c'
	d := nd.Pick("", "a/")
	k := nd.Pick(".wh.", ".wh..wh..opq")
	if k == ".wh." {
		k += comp()
	}
	ls := [][]Ent{{{Name: "a/b", Kind: tar.TypeReg}}, {{Name: d + k, Kind: tar.TypeReg}}}
	v, err := squash.Load(pack(ls), false)
	nd.Assert(err == nil, "Load fails")
	_, err = v.Open(d + k)
	nd.Assert(err != nil, "a whiteout marker can be opened")
	nd.Assert(errors.Is(err, fs.ErrNotExist), "opening an absent file gives another error")
	nd.Reach("end")
}

// hard applies a layer with hard links; ok is false if a link has no target.
func (t *FS) hard(es []Ent) bool {
	ok := true
	for _, e := range es {
		if e.Kind == tar.TypeLink {
			i := t.find(clean(e.Link))
			if i < 0 {
				ok = false
				continue
			}
			x := t.n[i].e
			x.Name = e.Name
			t.Apply([]Ent{x})
			continue
		}
		t.Apply([]Ent{e})
	}
	return ok
}

func hardLayers() ([][]Ent, string) {
	last = 'c'
	a, b := comp(), comp()
	nd.Assume(a != b)
	f := Ent{Name: a, Kind: tar.TypeReg, Mode: 0o644, Body: []byte{nd.Byte()}}
	l := Ent{Name: b, Kind: tar.TypeLink, Link: a, Mode: 0o644}
	ls := [][]Ent{{f, l}}
	why := ""
	if nd.SymBranch(b < a) {
		why = "hard link that sorts before its target"
	}
	switch nd.Choose(4) {
	case 1:
		ls = append(ls, []Ent{{Name: ".wh." + a, Kind: tar.TypeReg}})
		why = "hard link whose target is removed later"
	case 2:
		ls = append(ls, []Ent{{Name: a, Kind: tar.TypeReg, Mode: 0o600, Body: []byte{nd.Byte(), 'x'}}})
		why = "hard link whose target is replaced later"
	case 3:
		ls = append(ls, []Ent{{Name: b, Kind: tar.TypeReg, Mode: 0o600, Body: []byte{nd.Byte(), 'x'}}})
		why = ""
	}
	return ls, why
}

// HardLinks: hard links survive squashing.
func HardLinks() {
	ls, why := hardLayers()
	t := &FS{}
	t.put("", Ent{Kind: implied})
	for _, l := range ls {
		t.hard(l)
	}
	out, err := squash.Squash(pack(ls))
	nd.Assert(err == nil, "squash fails on a hard link")
	g := &FS{}
	g.put("", Ent{Kind: implied})
	ok := g.hard(RdLayer(out))
	bad := !ok || len(g.n) != len(t.n)
	for _, x := range t.n {
		i := g.find(x.path)
		bad = bad || i < 0 || !sameEnt(x.e, g.n[i].e)
	}
	nd.Assert(!bad, "squashing changes a "+why)
	nd.Reach("end")
}

// HardLinkView: a hard link reads as the file it links to.
func HardLinkView() {
	ls, _ := hardLayers()
	t := &FS{}
	t.put("", Ent{Kind: implied})
	for _, l := range ls {
		t.hard(l)
	}
	v, err := squash.Load(pack(ls), false)
	nd.Assert(err == nil, "Load fails on a hard link")
	for _, l := range ls {
		for _, e := range l {
			if isWh(e.Name) {
				continue
			}
			i := t.find(e.Name)
			f, err := v.Open(e.Name)
			nd.Assert((err == nil) == (i >= 0), "hard link: the wrong files exist")
			if i >= 0 {
				b, err := io.ReadAll(f)
				link := e.Kind == tar.TypeLink && len(t.n[i].e.Body) == 1
				nd.Assert(link || (err == nil && string(b) == string(t.n[i].e.Body)), "a file next to a hard link has other content")
				nd.Assert(err == nil && string(b) == string(t.n[i].e.Body), "a hard link does not have its target's content")
			}
		}
	}
	nd.Reach("end")
}

// Handles: any sequence of reads on two independent handles of one file.
func Handles() {
	body := nd.Bytes(nd.Choose(nd.Q(5, 7)))
	v, err := squash.Load(pack([][]Ent{{{Name: "d/f", Kind: tar.TypeReg, Body: body}}}), false)
	nd.Assert(err == nil, "Load fails")
	var fs2 [2]fs.File
	var got [2][]byte
	for i := range fs2 {
		fs2[i], err = v.Open("d/f")
		nd.Assert(err == nil, "a path that exists cannot be opened")
	}
	for k := 0; k < nd.Q(4, 5); k++ {
		i := nd.Choose(2)
		buf := make([]byte, 1+nd.Choose(3))
		n, err := fs2[i].Read(buf)
		left := len(body) - len(got[i])
		if left == 0 {
			nd.Assert(n == 0 && errors.Is(err, io.EOF), "reading past the end does not give EOF")
			continue
		}
		nd.Assert(err == nil && n > 0 && n <= left, "reading a file fails")
		got[i] = append(got[i], buf[:n]...)
		nd.Assert(string(got[i]) == string(body[:len(got[i])]), "the view has other content")
	}
	nd.Assert(fs2[0].Close() == nil, "closing fails")
	_, err = fs2[0].Read(make([]byte, 1))
	nd.Assert(errors.Is(err, fs.ErrClosed), "a closed file can be read")
	rest, err := io.ReadAll(fs2[1])
	nd.Assert(err == nil && string(got[1])+string(rest) == string(body), "closing one handle affects another")
	nd.Reach("end")
}

// Listing: any sequence of ReadDir calls on one directory.
func Listing() {
	n := nd.Choose(nd.Q(4, 5))
	var l []Ent
	for i := 0; i < n; i++ {
		l = append(l, Ent{Name: "d/" + string([]byte{byte('a' + i)}), Kind: tar.TypeReg})
	}
	l = append(l, Ent{Name: "d", Kind: tar.TypeDir, Mode: 0o755})
	v, err := squash.Load(pack([][]Ent{l}), false)
	nd.Assert(err == nil, "Load fails")
	f, err := v.Open("d")
	nd.Assert(err == nil, "a path that exists cannot be opened")
	d, ok := f.(fs.ReadDirFile)
	nd.Assert(ok, "a directory cannot be listed")
	_, err = f.Read(make([]byte, 1))
	nd.Assert(err != nil && !errors.Is(err, io.EOF), "a directory can be read like a file")
	got := 0
	for k := 0; k < 3; k++ {
		m := nd.Choose(6) - 2
		r, err := d.ReadDir(m)
		want := n - got
		if m > 0 {
			nd.Assert((err != nil) == (want == 0), "listing in parts ends at the wrong time")
			nd.Assert(err == nil || errors.Is(err, io.EOF), "listing a directory fails")
			if m < want {
				want = m
			}
		} else {
			nd.Assert(err == nil, "listing a directory fails")
		}
		nd.Assert(len(r) == want, "a listing returns the wrong number of entries")
		for i, e := range r {
			nd.Assert(e.Name() == string([]byte{byte('a' + got + i)}), "a listing repeats or skips an entry")
		}
		got += len(r)
	}
	nd.Assert(d.Close() == nil, "closing fails")
	_, err = d.ReadDir(nd.Choose(3) - 1)
	nd.Assert(errors.Is(err, fs.ErrClosed), "a closed directory can be listed")
	nd.Reach("end")
}

// ListNames: a directory whose children have any names is listed in order.
func ListNames() {
	n := 2 + nd.Choose(2)
	var es []Ent
	for i := 0; i < n; i++ {
		e := Ent{Name: "d/" + anyComp(1+nd.Choose(nd.Q(2, 3))), Kind: tar.TypeReg, Time: int64(nd.Byte())}
		if nd.Flip() {
			e.Kind = tar.TypeDir
		}
		for _, g := range es {
			nd.Assume(e.Name != g.Name)
		}
		es = append(es, e)
	}
	v, err := squash.Load(pack([][]Ent{es}), nd.Flip())
	nd.Assert(err == nil, "Load fails")
	l, err := fs.ReadDir(v, "d")
	nd.Assert(err == nil && len(l) == n, "a listing misses a child")
	for i, x := range l {
		nd.Assert(i == 0 || l[i-1].Name() < x.Name(), "a listing is not sorted or names a child twice")
		ok := false
		for _, e := range es {
			if e.Name == "d/"+x.Name() {
				in, err := x.Info()
				ok = err == nil && in.ModTime().Unix() == e.Time && x.IsDir() == (e.Kind == tar.TypeDir)
			}
		}
		nd.Assert(ok, "a listing names something that does not exist")
	}
	nd.Reach("end")
}

// ViewChain: symlinks to symlinks.
func ViewChain() {
	ls := chain()
	probe := genPath(1 + nd.Choose(2))
	viewCheck(ls, probe, false)
}
