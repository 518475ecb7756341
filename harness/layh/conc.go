package layh

import (
	"archive/tar"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/pkg/reproducible"
	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// rounds: natively a schedule cannot be chosen, so the threads are started many times.
func rounds(n int) int {
	if nd.SymNative() {
		return n
	}
	return 1
}

// ConcNow: threads that ask for the build time get the same one.
func ConcNow() {
	os.Unsetenv("SOURCE_DATE_EPOCH")
	set := nd.Bool()
	if set {
		os.Setenv("SOURCE_DATE_EPOCH", "17"+nd.From(1, "0123456789")+"0000000")
	}
	n := 2
	if nd.SymNative() {
		n = 8
	}
	got := make([][2]time.Time, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() {
			got[i][0] = reproducible.Now()
			got[i][1] = reproducible.Now()
		})
	}
	nd.SymPar(2, fs...)
	last := reproducible.Now()
	for i := range got {
		nd.Assert(got[i][0].Equal(last) && got[i][1].Equal(last), "threads get different build times")
		nd.Assert(!got[i][0].IsZero(), "a thread gets no build time")
	}
	nd.Reach("end")
}

// ConcRead: threads that share a handle get each part of the file once.
func ConcRead() {
	n := 3
	if nd.SymNative() {
		n = 30000
	}
	x := nd.Byte()
	body := make([]byte, 0, 4*n)
	for i := 0; i < n; i++ {
		body = append(body, byte(i>>16), byte(i>>8), byte(i), byte(i)^x)
	}
	v, err := squash.Load(pack([][]Ent{{{Name: "f", Kind: tar.TypeReg, Body: body}}}), false)
	nd.Assert(err == nil, "Load fails")
	f, err := v.Open("f")
	nd.Assert(err == nil, "a path that exists cannot be opened")
	seen := make([][]int, 2)
	bad := make([]bool, 2)
	rd := func(t int) func() {
		return func() {
			var buf [4]byte
			last := -1
			for k := 0; k <= n; k++ {
				m, err := f.Read(buf[:])
				if err != nil {
					bad[t] = bad[t] || m != 0 || err != io.EOF
					return
				}
				i := int(buf[0])<<16 | int(buf[1])<<8 | int(buf[2])
				if m != 4 || nd.SymBranch(buf[3] != byte(i)^x) || i <= last {
					bad[t] = true
					return
				}
				last = i
				seen[t] = append(seen[t], i)
			}
			bad[t] = true
		}
	}
	nd.SymPar(nd.Q(2, 3), rd(0), rd(1))
	nd.Assert(!bad[0] && !bad[1], "a shared handle delivers other content or does not end")
	cnt := make([]int, n)
	for _, s := range seen {
		for _, i := range s {
			cnt[i]++
		}
	}
	for _, c := range cnt {
		nd.Assert(c == 1, "a shared handle delivers a part twice or not at all")
	}
	nd.Reach("end")
}

// ConcClose: of several threads that close a handle one does; whoever reads gets content or the error for closed files.
func ConcClose() {
	v, err := squash.Load(pack([][]Ent{{{Name: "f", Kind: tar.TypeReg, Body: []byte{1, 2}}}}), false)
	nd.Assert(err == nil, "Load fails")
	for r := 0; r < rounds(3000); r++ {
		f, err := v.Open("f")
		nd.Assert(err == nil, "a path that exists cannot be opened")
		var e [2]error
		var n int
		var re error
		var buf [2]byte
		ts := []func(){func() { e[0] = f.Close() }, func() { e[1] = f.Close() }}
		if !nd.SymNative() || r%2 == 0 {
			ts = append(ts, func() { n, re = f.Read(buf[:]) })
		} else {
			n = 2
			buf[1] = 2
		}
		nd.SymPar(2, ts...)
		nd.Assert((e[0] == nil) != (e[1] == nil), "a handle is not closed exactly once")
		for _, x := range e {
			nd.Assert(x == nil || errors.Is(x, fs.ErrClosed), "closing twice gives another error")
		}
		nd.Assert(re == nil && n == 2 && buf[1] == 2 || re != nil && n == 0 && errors.Is(re, fs.ErrClosed), "reading while closing gives neither content nor the error for closed files")
	}
	nd.Reach("end")
}

// ConcList: threads that share a directory handle list each child once.
func ConcList() {
	n := 2
	if nd.SymNative() {
		n = 40
	}
	var l []Ent
	for i := 0; i < n; i++ {
		l = append(l, Ent{Name: "d/" + string([]byte{byte('a' + i/16), byte('a' + i%16)}), Kind: tar.TypeReg})
	}
	l = append(l, Ent{Name: "d", Kind: tar.TypeDir, Mode: 0o755})
	v, err := squash.Load(pack([][]Ent{l}), false)
	nd.Assert(err == nil, "Load fails")
	all := nd.Bool()
	for r := 0; r < rounds(800); r++ {
		f, err := v.Open("d")
		nd.Assert(err == nil, "a path that exists cannot be opened")
		d := f.(fs.ReadDirFile)
		got := make([][]string, 2)
		bad := make([]bool, 2)
		ls := func(t int) func() {
			return func() {
				if all {
					es, err := d.ReadDir(-1)
					bad[t] = err != nil
					for _, e := range es {
						got[t] = append(got[t], e.Name())
					}
					return
				}
				for k := 0; k <= n; k++ {
					es, err := d.ReadDir(1)
					if err != nil {
						bad[t] = err != io.EOF || len(es) != 0
						return
					}
					if len(es) != 1 {
						bad[t] = true
						return
					}
					got[t] = append(got[t], es[0].Name())
				}
				bad[t] = true
			}
		}
		nd.SymPar(nd.Q(2, 3), ls(0), ls(1))
		nd.Assert(!bad[0] && !bad[1], "listing through a shared handle fails or does not end")
		cnt := map[string]int{}
		for _, g := range got {
			for i, s := range g {
				nd.Assert(i == 0 || g[i-1] < s, "a shared handle lists out of order")
				cnt[s]++
			}
		}
		nd.Assert(len(cnt) == n, "a shared handle does not list every child")
		for _, c := range cnt {
			nd.Assert(c == 1, "a shared handle lists a child twice")
		}
	}
	nd.Reach("end")
}

func viewText(v fs.FS, p string) string {
	f, err := v.Open(p)
	if err != nil {
		return "E"
	}
	i, err := f.Stat()
	if err != nil {
		return "S"
	}
	s := i.Name() + " " + i.Mode().String() + " "
	if i.IsDir() {
		es, err := f.(fs.ReadDirFile).ReadDir(-1)
		if err != nil {
			return s + "E"
		}
		for _, e := range es {
			s += e.Name() + "," + e.Type().String() + ";"
		}
		return s
	}
	var b [4]byte
	for {
		n, err := f.Read(b[:])
		s += string(b[:n])
		if err != nil {
			return s + err.Error()
		}
	}
}

// ConcView: threads with handles of their own see what one alone sees.
func ConcView() {
	ps := [2]string{nd.Pick("d", "d/f", "l", "d/l"), nd.Pick("d", "d/f", "l")}
	v, err := squash.Load(pack([][]Ent{{
		{Name: "d", Kind: tar.TypeDir, Mode: 0o750},
		{Name: "d/f", Kind: tar.TypeReg, Mode: 0o640, Body: []byte{'x', nd.Byte()}},
		{Name: "d/l", Kind: tar.TypeSymlink, Link: "f"},
		{Name: "l", Kind: tar.TypeSymlink, Link: "d/f"},
	}}), false)
	nd.Assert(err == nil, "Load fails")
	want := [2]string{viewText(v, ps[0]), viewText(v, ps[1])}
	for r := 0; r < rounds(3000); r++ {
		var got [2]string
		nd.SymPar(nd.Q(1, 2), func() { got[0] = viewText(v, ps[0]) }, func() { got[1] = viewText(v, ps[1]) })
		nd.Assert(got[0] == want[0] && got[1] == want[1], "a thread sees another file system than one alone")
	}
	nd.Reach("end")
}

// ConcImage: threads that first use an image's file system together find what one alone finds.
func ConcImage() {
	two := nd.Bool()
	l := [][]Ent{{{Name: "b/p", Kind: tar.TypeReg, Mode: 0o755, UID: 7, GID: 8}}}
	if two {
		l = append(l, []Ent{{Name: "a/p", Kind: tar.TypeReg, Mode: 0o755, UID: 9}})
	}
	broken := nd.Bool()
	q := [2]int{nd.Choose(2), nd.Choose(2)}
	ask := func(sys *pyinspect.ImageFS, k int) string {
		if k == 0 {
			s, err := sys.LookPath("p")
			if err != nil {
				return "E"
			}
			return s
		}
		i, err := sys.Stat("/b/p")
		if err != nil {
			return "E"
		}
		return i.Name() + string([]byte{'0' + byte(i.UID()), '0' + byte(i.GID())})
	}
	want := [2]string{"/b/p", "p78"}
	if two {
		want[0] = "/a/p"
	}
	if broken {
		want = [2]string{"E", "E"}
	}
	for r := 0; r < rounds(1000); r++ {
		sys, _ := lookFS(l, []string{"PATH=/a:/b"}, "")
		if broken {
			sys.Image.(*lookImage).err = errors.New("x")
		}
		var got [2]string
		nd.SymPar(nd.Q(1, 2), func() { got[0] = ask(sys, q[0]) }, func() { got[1] = ask(sys, q[1]) })
		nd.Assert(got[0] == want[q[0]] && got[1] == want[q[1]], "a thread finds something else than one alone")
	}
	nd.Reach("end")
}

func layText(l ociv1.Layer) string {
	s := ""
	for _, e := range RdLayer(l) {
		s += e.Name + string(rune(e.Kind)) + string(e.Body) + ";"
	}
	return s
}

// ConcLayer: threads and later readers of one layer each read all of it.
func ConcLayer() {
	b := []byte{'x', nd.Byte()}
	var l ociv1.Layer
	var err error
	switch nd.Choose(3) {
	case 0:
		l, err = squash.Squash(pack([][]Ent{{{Name: "d/f", Kind: tar.TypeReg, Body: b}}, {{Name: "g", Kind: tar.TypeReg, Body: b}}}))
	case 1:
		l, err = fsutil.LayerFromFileReferences([]fsutil.FileReference{
			&fsutil.InMemFileReference{FileInfo: (&tar.Header{Name: "f", Typeflag: tar.TypeReg, Size: 2}).FileInfo(), MFullName: "f", MContent: b},
		}, time.Unix(1, 0))
	case 2:
		p, e := os.MkdirTemp("", "verif")
		nd.Assert(e == nil, "no scratch directory")
		defer os.RemoveAll(p)
		os.WriteFile(p+"/f", b, 0o644)
		l, err = dir.LayerFromDir(p, nil, nil, time.Unix(1, 0))
	}
	nd.Assert(err == nil, "no layer")
	want := layText(l)
	nd.Assert(strings.Contains(want, "f0"+string(b)), "the layer lacks a file")
	for r := 0; r < rounds(50); r++ {
		var got [2]string
		nd.SymPar(nd.Q(1, 2), func() { got[0] = layText(l) }, func() { got[1] = layText(l) })
		nd.Assert(got[0] == want && got[1] == want, "reading a layer again gives something else")
	}
	nd.Reach("end")
}
