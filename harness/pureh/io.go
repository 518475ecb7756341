package pureh

import (
	"archive/tar"
	"bytes"
	"context"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/gobuild"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func must(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

// file is a file reference.
type file struct {
	fs.FileInfo
	name string
	body []byte
}

func mkFile(name string, body []byte) *file {
	h := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: time.Unix(1577836800, 0)}
	return &file{FileInfo: h.FileInfo(), name: name, body: body}
}

func (f *file) FullName() string             { return f.name }
func (f *file) Name() string                 { return path.Base(f.name) }
func (f *file) Open() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(f.body)), nil }

const tool = `#!/bin/sh
exit 0
`

// Lists: the lists of files, layers, packages and command words a call is
// given, and the records it is given by reference, are left alone.
func Lists() {
	d, err := os.MkdirTemp("", "zz")
	must(err)
	defer os.RemoveAll(d)
	must(os.Mkdir(d+"/t", 0o755))
	must(os.WriteFile(d+"/t/f", nd.Bytes(1), 0o644))
	layh.GoTool(d, nd.Bytes(1), "1000")
	goHook := execw.Hook
	execw.Hook = func(p string, args, env []string) error {
		if strings.HasSuffix(p, "/tool") {
			return nil
		}
		return goHook(p, args, env)
	}
	must(os.WriteFile(d+"/tool", []byte(tool), 0o755))
	must(os.Chmod(d+"/tool", 0o755))

	body := nd.Bytes(2)
	fs := append(make([]fsutil.FileReference, 0, 4), mkFile(nd.From(1, "aBc")+".py", body[:1]), mkFile(nd.From(1, "abc")+"/x.py", body[1:]), mkFile("d.py", nil), mkFile("0", nil))
	nd.Assume(fs[0].FullName()[0] != fs[1].FullName()[0])
	was := append([]fsutil.FileReference(nil), fs...)
	b0, b1 := body[0], body[1]
	words := append(make([]string, 0, 8), d+"/tool", nd.From(2, "./aB"), "x", "./Y/", "z//"+nd.From(1, "/.a"), "u", "v", "w")
	wwas := append([]string(nil), words...)
	pre := &dir.Prefix{DirName: nd.Pick("a", "A/b"), Mode: []int{0, 0o700}[nd.Choose(2)], Ownership: dir.Ownership{UID: num() - 1, GID: num() - 1, UName: "u"}}
	pwas := *pre
	own := &dir.Ownership{UID: num() - 1, GID: num() - 1, UName: nd.Pick("", "u"), GName: nd.From(1, "gG")}
	owas := *own
	l := layh.MkLayer([]layh.Ent{{Name: "b", Kind: tar.TypeReg, Body: nd.Bytes(1)}, {Name: ".wh.a", Kind: tar.TypeReg}})
	l2 := layh.MkLayer([]layh.Ent{{Name: "a", Kind: tar.TypeReg, Body: nd.Bytes(1)}})
	ls := append(make([]ociv1.Layer, 0, 4), l, []ociv1.Layer{l, l2}[nd.Choose(2)], l2, l)
	lwas := append([]ociv1.Layer(nil), ls...)
	what := ""
	ctx := context.Background()
	clamp := time.Unix(1600000000, 0)
	switch nd.Choose(7) {
	case 0:
		what = "making a layer from files"
		_, err = fsutil.LayerFromFileReferences(fs[:3], clamp)
	case 1:
		what = "making a layer from a directory"
		_, err = dir.LayerFromDir(d+"/t", pre, own, clamp)
	case 2:
		what = "compiling"
		var c python.Compiler
		c, err = python.ExternalCompiler(words[:1+nd.Choose(2)]...)
		must(err)
		_, err = c(ctx, clamp, words[3:5], fs[:3])
	case 3:
		what = "inspecting an interpreter"
		_, _ = pyinspect.Dynamic(ctx, words[:1+nd.Choose(2)]...)
	case 4:
		what = "building Go programs"
		_, err = gobuild.LayerFromGo(ctx, clamp, words[1:2])
	case 5:
		what = "squashing layers"
		_, err = squash.Squash(ls[:2+nd.Choose(2)])
	case 6:
		what = "loading layers"
		_, err = squash.Load(ls[:2+nd.Choose(2)], nd.Flip())
	}
	nd.Assert(err == nil, what+" fails")
	for i := range fs {
		nd.Assert(fs[i] == was[i], what+" changes the list of files")
	}
	nd.Assert(body[0] == b0 && body[1] == b1, what+" changes a file's content")
	for i := range words {
		nd.Assert(words[i] == wwas[i], what+" changes a list of words")
	}
	nd.Assert(*pre == pwas, what+" changes the prefix")
	nd.Assert(*own == owas, what+" changes the owner")
	for i := range ls {
		nd.Assert(ls[i] == lwas[i], what+" changes the list of layers")
	}
	nd.Reach("end")
}
