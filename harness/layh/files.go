package layh

import (
	"archive/tar"
	"bytes"
	"errors"
	"io"
	"io/fs"
	"path"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// fref is a file reference with chosen metadata.
type fref struct {
	name string
	mode fs.FileMode
	size int64
	tm   time.Time
	sys  interface{}
	body []byte

	fail int // 1: Open fails; 2: Read fails after the first byte; 3: Close fails

	opened, closed int
}

func (f *fref) FullName() string   { return f.name }
func (f *fref) Name() string       { return path.Base(f.name) }
func (f *fref) Size() int64        { return f.size }
func (f *fref) Mode() fs.FileMode  { return f.mode }
func (f *fref) ModTime() time.Time { return f.tm }
func (f *fref) IsDir() bool        { return f.mode.IsDir() }
func (f *fref) Sys() interface{}   { return f.sys }
func (f *fref) Open() (io.ReadCloser, error) {
	if f.fail == 1 {
		return nil, errors.New("open fails")
	}
	f.opened++
	return &frd{f: f, r: bytes.NewReader(f.body)}, nil
}

type frd struct {
	f *fref
	r io.Reader
}

func (r *frd) Read(b []byte) (int, error) {
	if r.f.fail == 2 {
		return 0, errors.New("read fails")
	}
	return r.r.Read(b)
}
func (r *frd) Close() error {
	r.f.closed++
	if r.f.fail == 3 {
		return errors.New("close fails")
	}
	return nil
}

// fname is a path of up to ncomp components, over bytes on both sides of '/'.
func fname(ncomp int) string {
	n := 1 + nd.Choose(ncomp)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "/"
		}
		s += nd.From(1, "a-")
		if i == 0 && nd.Flip() {
			s += nd.From(1, "-b")
		}
	}
	return s
}

func refsOf(fs []*fref) []fsutil.FileReference {
	r := make([]fsutil.FileReference, len(fs))
	for i, f := range fs {
		r[i] = f
	}
	return r
}

func sameEnts(a, b []Ent) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		x, y := a[i], b[i]
		ok = ok && x.Name == y.Name && x.Kind == y.Kind && x.Mode == y.Mode && x.UID == y.UID && x.GID == y.GID && x.Uname == y.Uname && x.Time == y.Time && string(x.Body) == string(y.Body)
	}
	return ok
}

// FilesOrder: any set of files gives the same, parent-first layer in every input order.
func FilesOrder() {
	n := 1 + nd.Choose(3)
	var fs []*fref
	for i := 0; i < n; i++ {
		f := &fref{name: fname(nd.Q(2, 3)), mode: 0o644, tm: time.Unix(5, 0), body: []byte{byte('0' + i)}, size: 1}
		for _, g := range fs {
			nd.Assume(g.name != f.name)
		}
		fs = append(fs, f)
	}
	perm := append([]*fref(nil), fs...)
	for i := 0; i+1 < n; i++ {
		j := i + nd.Choose(n-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	l, err := fsutil.LayerFromFileReferences(refsOf(fs), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	es := RdLayer(l)
	nd.Assert(len(es) == n, "the layer does not have one entry per file")
	for _, f := range fs {
		cnt := 0
		for _, e := range es {
			if e.Name == f.name && string(e.Body) == string(f.body) {
				cnt++
			}
		}
		nd.Assert(cnt == 1, "a file is not in the layer exactly once with its content")
	}
	for i := range es {
		for j := 0; j < i; j++ {
			nd.Assert(!under(es[i].Name, es[j].Name), "an entry precedes its parent")
		}
	}
	l2, err := fsutil.LayerFromFileReferences(refsOf(perm), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	nd.Assert(sameEnts(es, RdLayer(l2)), "the layer depends on the order of the list")
	nd.Observe("layer", Dump(es))
	nd.Reach("end")
}

// anyComp is a path component of n arbitrary bytes.
func anyComp(n int) string {
	s := nd.Str(n)
	for i := 0; i < n; i++ {
		nd.Assume(s[i] != 0 && s[i] != '/')
	}
	nd.Assume(s != "." && s != "..")
	return s
}

// FilesNames: two or three files with arbitrary names, in every order.
func FilesNames() {
	var fs []*fref
	n := 2 + nd.Choose(nd.Q(1, 2))
	for i := 0; i < n; i++ {
		f := &fref{name: anyComp(1 + nd.Choose(2)), mode: 0o644, tm: time.Unix(5, 0), body: []byte{byte('0' + i)}, size: 1}
		if nd.Flip() {
			f.name += "/" + anyComp(1+nd.Choose(nd.Q(1, 2)))
		}
		for _, g := range fs {
			nd.Assume(g.name != f.name)
		}
		fs = append(fs, f)
	}
	perm := append([]*fref(nil), fs...)
	for i := 0; i+1 < n; i++ {
		j := i + nd.Choose(n-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	l, err := fsutil.LayerFromFileReferences(refsOf(fs), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	es := RdLayer(l)
	nd.Assert(len(es) == n, "the layer does not have one entry per file")
	for _, f := range fs {
		cnt := 0
		for _, e := range es {
			if e.Name == f.name && string(e.Body) == string(f.body) {
				cnt++
			}
		}
		nd.Assert(cnt == 1, "a file is not in the layer exactly once with its content")
	}
	for i := range es {
		for j := 0; j < i; j++ {
			nd.Assert(!under(es[i].Name, es[j].Name), "an entry precedes its parent")
		}
	}
	l2, err := fsutil.LayerFromFileReferences(refsOf(perm), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	nd.Assert(sameEnts(es, RdLayer(l2)), "the layer depends on the order of the list")
	nd.Reach("end")
}

// FilesMeta: headers, contents and clamped times are kept, and nothing else is clamped.
func FilesMeta() {
	n := 1 + nd.Choose(2)
	var fs0 []*fref
	clamp := time.Unix(int64(nd.SymU16()), 0)
	for i := 0; i < n; i++ {
		f := &fref{name: string([]byte{byte('a' + i)}), tm: time.Unix(int64(nd.SymU16()), 0)}
		perm := nd.SymU16()
		nd.Assume(perm <= 0o777)
		f.mode = fs.FileMode(perm)
		if n == 1 { // several files: permission bits only
			switch nd.Choose(4) {
			case 1:
				f.mode |= fs.ModeSetuid
			case 2:
				f.mode |= fs.ModeSetgid
			case 3:
				f.mode |= fs.ModeSticky | fs.ModeSetgid
			}
		}
		if nd.Flip() {
			f.mode |= fs.ModeDir
		} else {
			f.body = nd.Bytes(nd.Choose(4 - n))
			f.size = int64(len(f.body))
		}
		if n == 1 && nd.Flip() || n > 1 && i == 0 {
			f.sys = &tar.Header{Uid: int(nd.SymU16()), Gid: int(nd.SymU16()), Uname: lower(), Gname: lower(),
				AccessTime: time.Unix(int64(nd.SymU16()), 0), ChangeTime: time.Unix(int64(nd.SymU16()), 0)}
		}
		fs0 = append(fs0, f)
	}
	l, err := fsutil.LayerFromFileReferences(refsOf(fs0), clamp)
	nd.Assert(err == nil, "making a layer from good files fails")
	rd, err := l.Uncompressed()
	nd.Assert(err == nil, "the layer cannot be read")
	t := tar.NewReader(rd)
	for _, f := range fs0 {
		h, err := t.Next()
		nd.Assert(err == nil, "an entry is missing")
		b, err := io.ReadAll(t)
		nd.Assert(err == nil && string(b) == string(f.body), "an entry's content is not the file's")
		nd.Assert(path.Clean(h.Name) == f.name, "an entry's name is not the file's")
		want := f.tm
		if want.After(clamp) {
			want = clamp
		}
		nd.Assert(h.ModTime.Equal(want), "a modification time is not the earlier of the file's and the clamp time")
		nd.Assert(!h.AccessTime.After(clamp) && !h.ChangeTime.After(clamp), "an access or change time is later than the clamp time")
		fi := h.FileInfo()
		nd.Assert(fi.Mode() == f.mode, "an entry's type or mode is not the file's")
		if x, ok := f.sys.(*tar.Header); ok {
			nd.Assert(h.Uid == x.Uid && h.Gid == x.Gid && h.Uname == x.Uname && h.Gname == x.Gname, "an entry's owner is not the file's")
		} else {
			nd.Assert(h.Uid == 0 && h.Gid == 0, "an entry has an owner the file does not have")
		}
	}
	_, err = t.Next()
	nd.Assert(errors.Is(err, io.EOF), "the layer has extra entries")
	nd.Reach("end")
}

// FilesSubsecond: times with fractions of a second.
func FilesSubsecond() {
	ns := []int64{0, 1, 499999999, 500000000, 999999999}
	tm := time.Unix(int64(nd.SymU16()), ns[nd.Choose(len(ns))])
	clamp := time.Unix(int64(nd.SymU16()), ns[nd.Choose(len(ns))])
	f := &fref{name: "a", mode: 0o644, tm: tm}
	l, err := fsutil.LayerFromFileReferences(refsOf([]*fref{f}), clamp)
	nd.Assert(err == nil, "making a layer from good files fails")
	es := RdLayer(l)
	nd.Assert(len(es) == 1, "the layer does not have one entry per file")
	want := tm
	if want.After(clamp) {
		want = clamp
	}
	d := time.Unix(es[0].Time, 0).Sub(want)
	nd.Assert(d < time.Second && d > -time.Second, "a modification time is off by a second or more")
	nd.Reach("end")
}

// FilesFault: a file that cannot be read in full never yields a layer.
func FilesFault() {
	n := 1 + nd.Choose(2)
	var fs []*fref
	for i := 0; i < n; i++ {
		b := nd.Bytes(nd.Choose(3))
		fs = append(fs, &fref{name: string([]byte{byte('a' + i)}), mode: 0o644, tm: time.Unix(5, 0), body: b, size: int64(len(b))})
	}
	v := fs[nd.Choose(n)]
	k := nd.Choose(4)
	if k == 3 {
		v.size = int64(nd.Range(0, 3))
		nd.Assume(v.size != int64(len(v.body)))
	} else {
		v.fail = k + 1
	}
	_, err := fsutil.LayerFromFileReferences(refsOf(fs), time.Unix(9, 0))
	nd.Assert(err != nil, "a file that cannot be read in full yields a layer")
	nd.Reach("end")
}

// FilesInMem: in-memory references behave like any other.
func FilesInMem() {
	body := nd.Bytes(nd.Choose(3))
	name := fname(2)
	r := &fsutil.InMemFileReference{FileInfo: (&tar.Header{Name: "x", Typeflag: tar.TypeReg, Mode: 0o755, Size: int64(len(body)), Uid: 7, Gid: 8, ModTime: time.Unix(int64(nd.Byte()), 0)}).FileInfo(), MFullName: name, MContent: body}
	tm := r.ModTime()
	nd.Assert(r.FullName() == name && r.Name() == path.Base(name), "an in-memory file has another name")
	clamp := time.Unix(int64(nd.Byte()), 0)
	l, err := fsutil.LayerFromFileReferences([]fsutil.FileReference{r}, clamp)
	nd.Assert(err == nil, "making a layer from good files fails")
	es := RdLayer(l)
	nd.Assert(len(es) == 1, "the layer does not have one entry per file")
	e := es[0]
	if tm.After(clamp) {
		tm = clamp
	}
	nd.Assert(e.Name == name && string(e.Body) == string(body) && e.Mode == 0o755 && e.UID == 7 && e.GID == 8 && e.Kind == tar.TypeReg && e.Time == tm.Unix(), "an in-memory file is not recorded faithfully")
	nd.Reach("end")
}
