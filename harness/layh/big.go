package layh

import (
	"archive/tar"
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// BigSquash: contents of any size and what follows them.
func BigSquash() {
	b := nd.Big(nd.BigSize(), 512, 4096, 32768)
	ls := [][]Ent{{{Name: "d/f", Kind: tar.TypeReg, Mode: 0o644, Body: b}, {Name: "g", Kind: tar.TypeReg, Body: []byte("g")}}}
	over := nd.Choose(3)
	switch over {
	case 1:
		ls = append(ls, []Ent{{Name: "g", Kind: tar.TypeReg, Body: []byte("gg")}})
	case 2: // shorter
		ls = append(ls, []Ent{{Name: "d/f", Kind: tar.TypeReg, Mode: 0o600, Body: b[:len(b)-1]}})
		b = b[:len(b)-1]
	}
	l, err := squash.Squash(pack(ls))
	nd.Assert(err == nil, "Squash fails")
	got := map[string]string{}
	for _, e := range RdLayer(l) {
		got[e.Name] = string(e.Body)
	}
	nd.Assert(len(got) == 2 && got["d/f"] == string(b), "a big file has another content")
	nd.Assert(len(got["g"]) == 1+over%2, "what follows a big file has another content")
	nd.Reach("end")
}

// BigView: contents of any size through buffers of any size.
func BigView() {
	b := nd.Big(nd.BigSize(), 512, 4096, 32768)
	v, err := squash.Load(pack([][]Ent{{{Name: "d/f", Kind: tar.TypeReg, Mode: 0o644, Body: b}}}), false)
	nd.Assert(err == nil, "Load fails")
	f, err := v.Open("d/f")
	nd.Assert(err == nil, "a path that exists cannot be opened")
	i, err := f.Stat()
	nd.Assert(err == nil && i.Size() == int64(len(b)), "the view has another size")
	buf := make([]byte, []int{512, 4096, 40000, 333}[nd.Choose(4)])
	var got []byte
	for {
		n, err := f.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			nd.Assert(errors.Is(err, io.EOF), "reading a file fails")
			break
		}
		nd.Assert(n > 0 && len(got) <= len(b), "reading makes no progress or does not end")
	}
	nd.Assert(string(got) == string(b), "the view has other content")
	nd.Reach("end")
}

// BigDir: a directory with a file of any size, or with many files.
func BigDir() {
	r := &dirRun{clamp: 50}
	if nd.Bool() {
		r.hs = []*hfile{
			{name: "f", kind: kFile, mode: 0o644, tm: 5, body: nd.Big(nd.BigSize(), 512, 4096, 32768)},
			{name: "g", kind: kFile, mode: 0o644, tm: 5, body: nd.Bytes(1)},
		}
	} else {
		n := nd.Q(20, 40)
		for i := 0; i < n; i++ {
			h := &hfile{name: string([]byte{'a' + byte(i*7%n)/16, 'a' + byte(i*7%n)%16}), kind: kFile, mode: 0o644, tm: int64(40 + i), body: []byte{byte(i)}}
			switch i % 3 {
			case 1:
				h.kind, h.mode, h.body = kDir, 0o755, nil
			case 2:
				h.body = append(h.body, nd.Byte())
			}
			r.hs = append(r.hs, h)
		}
	}
	r.check()
	nd.Reach("end")
}

// DeepDir: nested directories.
func DeepDir() {
	r := &dirRun{clamp: 50}
	p := ""
	n := 3 + nd.Choose(nd.Q(5, 9))
	for i := 0; i < n; i++ {
		p = join(p, nd.From(1, "ab"))
		r.hs = append(r.hs, &hfile{name: p, kind: kDir, mode: fs.FileMode(0o700 + i), tm: int64(45 + i)})
	}
	r.hs = append(r.hs, &hfile{name: p + "/f", kind: kFile, mode: 0o644, tm: 5, body: nd.Bytes(1)})
	r.check()
	nd.Reach("end")
}

// BigFiles: file lists with a file of any size, or with many files in any rotation.
func BigFiles() {
	var fs0 []*fref
	if nd.Bool() {
		b := nd.Big(nd.BigSize(), 512, 4096, 32768)
		fs0 = []*fref{
			{name: "g", mode: 0o644, tm: time.Unix(5, 0), body: []byte("g"), size: 1},
			{name: "f", mode: 0o644, tm: time.Unix(5, 0), body: b, size: int64(len(b))},
		}
	} else {
		n := nd.Q(26, 40)
		for i := 0; i < n; i++ {
			nm := "d"
			switch i % 4 {
			case 1:
				nm = "d/" + string([]byte{'a' + byte(i/4)})
			case 2:
				nm = "d-" + string([]byte{'a' + byte(i/4)})
			case 3:
				nm = "d/" + string([]byte{'a' + byte(i/4-1)}) + "/x"
			case 0:
				nm = "e" + string([]byte{'a' + byte(i/4)})
			}
			f := &fref{name: nm, mode: 0o644, tm: time.Unix(5, 0), body: []byte{byte(i)}, size: 1}
			if i == 3 { // "`" sorts before "a"
				f.name = "d"
				f.mode = 0o755 | fs.ModeDir
				f.body, f.size = nil, 0
			}
			fs0 = append(fs0, f)
		}
		r := nd.Choose(n)
		fs0 = append(append([]*fref(nil), fs0[r:]...), fs0[:r]...)
	}
	n := len(fs0)
	keep := append([]*fref(nil), fs0...)
	l, err := fsutil.LayerFromFileReferences(refsOf(fs0), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	es := RdLayer(l)
	nd.Assert(len(es) == n, "the layer does not have one entry per file")
	for _, f := range keep {
		cnt := 0
		for _, e := range es {
			if clean(e.Name) == f.name && string(e.Body) == string(f.body) {
				cnt++
			}
		}
		nd.Assert(cnt == 1, "a file is not in the layer exactly once with its content")
	}
	for i := range es {
		for j := 0; j < i; j++ {
			nd.Assert(!under(clean(es[i].Name), clean(es[j].Name)), "an entry precedes its parent")
		}
	}
	for i := 0; i < n/2; i++ {
		keep[i], keep[n-1-i] = keep[n-1-i], keep[i]
	}
	l2, err := fsutil.LayerFromFileReferences(refsOf(keep), time.Unix(9, 0))
	nd.Assert(err == nil, "making a layer from good files fails")
	nd.Assert(sameEnts(es, RdLayer(l2)), "the layer depends on the order of the list")
	nd.Reach("end")
}

// ManyCanon: squashing many files gives the canonical order, in any order of input.
func ManyCanon() {
	n := nd.Q(20, 40)
	var l []Ent
	for i := 0; i < n; i++ {
		k := i * 7 % n
		nm := string([]byte{'a' + byte(k)/16, 'a' + byte(k)%16})
		switch k % 3 {
		case 1:
			nm = "d/" + nm
		case 2:
			nm = "d-/" + nm
		}
		l = append(l, Ent{Name: nm, Kind: tar.TypeReg, Body: []byte{byte(k)}})
	}
	x := nd.From(1, "ab") + nd.From(1, "az")
	for _, e := range l {
		nd.Assume(e.Name != x)
	}
	l = append(l, Ent{Name: x, Kind: tar.TypeReg})
	r := nd.Choose(n)
	a, err := squash.Squash(pack([][]Ent{append(append([]Ent(nil), l[r:]...), l[:r]...)}))
	nd.Assert(err == nil, "Squash fails")
	es := RdLayer(a)
	canonical(es)
	nd.Assert(len(es) >= len(l), "Squash loses files")
	nd.SymMapMode(4 * nd.Choose(2))
	b, err := squash.Squash(pack([][]Ent{l}))
	nd.SymMapMode(0)
	nd.Assert(err == nil && same(es, RdLayer(b)), "the result depends on the order of the input")
	nd.Reach("end")
}

// DeepView: long paths and long chains of symlinks.
func DeepView() {
	n := 3 + nd.Choose(nd.Q(3, 6))
	p := ""
	var l []Ent
	for i := 0; i < n; i++ {
		p = join(p, "d")
		if nd.Flip() {
			l = append(l, Ent{Name: p, Kind: tar.TypeDir, Mode: int64(0o700 + i)})
		}
	}
	b := nd.Bytes(1)
	l = append(l, Ent{Name: p + "/f", Kind: tar.TypeReg, Mode: 0o644, Body: b})
	hops := []int{0, 1, 5, 11, 18, 30}[nd.Choose(nd.Q(4, 6))]
	q := "/" + p + "/f"
	if nd.Flip() {
		q = p + "/f"
	}
	for i := 0; i < hops; i++ {
		nm := "l" + string([]byte{'a' + byte(i)})
		l = append(l, Ent{Name: nm, Kind: tar.TypeSymlink, Link: q})
		q = nm
	}
	if hops == 0 {
		q = p + "/f"
	}
	ls := [][]Ent{l}
	cut := nd.Choose(n + 1)
	gone := cut < n
	if gone { // a whiteout of a directory above
		d := ""
		for i := 0; i < cut; i++ {
			d = join(d, "d")
		}
		ls = append(ls, []Ent{{Name: join(d, ".wh.d"), Kind: tar.TypeReg}})
	}
	v, err := squash.Load(pack(ls), false)
	nd.Assert(err == nil, "Load fails")
	g, err := fs.ReadFile(v, q)
	if gone {
		nd.Assert(err != nil, "a removed file can be read")
	} else {
		nd.Assert(err == nil && string(g) == string(b), "a file deep down cannot be read")
	}
	s, err := squash.Squash(pack(ls))
	nd.Assert(err == nil, "Squash fails")
	found := false
	for _, e := range RdLayer(s) {
		found = found || e.Name == p+"/f" && string(e.Body) == string(b)
	}
	nd.Assert(found != gone, "a file deep down is lost or not removed")
	nd.Reach("end")
}
