package main

import (
	"archive/tar"
	"bytes"
	"context"
	"io"
	"os"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func zzScratch() string {
	d, err := os.MkdirTemp("", "zz")
	if err != nil {
		nd.SymSkip()
	}
	return d
}

// zzExec runs the program as main does, with its output in a file.
func zzExec(out string, args ...string) error {
	f, err := os.Create(out)
	if err != nil {
		nd.SymSkip()
	}
	old := os.Stdout
	os.Stdout = f
	argparser.SetArgs(args)
	err = argparser.ExecuteContext(context.Background())
	os.Stdout = old
	if err := f.Close(); err != nil {
		nd.SymSkip()
	}
	return err
}

func zzLayerFile(p string, es ...layh.Ent) {
	if err := os.WriteFile(p, zzTar(es), 0o644); err != nil {
		nd.SymSkip()
	}
}

func zzTar(es []layh.Ent) []byte {
	r, err := layh.MkLayer(es).Uncompressed()
	if err != nil {
		nd.SymSkip()
	}
	var b bytes.Buffer
	if _, err := b.ReadFrom(r); err != nil {
		nd.SymSkip()
	}
	return b.Bytes()
}

func zzEnt(n string, c byte) layh.Ent {
	return layh.Ent{Name: n, Kind: '0', Mode: 0o644, Time: 7, Body: []byte{c}}
}

func zzImageFile(p string, cfg ociv1.Config, ls ...layh.Ent) {
	img := empty.Image
	var err error
	for _, e := range ls {
		img, err = mutate.AppendLayers(img, layh.MkLayer([]layh.Ent{e}))
		if err != nil {
			nd.SymSkip()
		}
	}
	if img, err = mutate.Config(img, cfg); err != nil {
		nd.SymSkip()
	}
	t, err := name.NewTag("base:1")
	if err != nil {
		nd.SymSkip()
	}
	f, err := os.Create(p)
	if err != nil {
		nd.SymSkip()
	}
	if err := ociv1tarball.Write(t, img, f); err != nil {
		nd.SymSkip()
	}
	if err := f.Close(); err != nil {
		nd.SymSkip()
	}
}

func zzSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = r && a[i] == b[i]
	}
	return r
}

func zzChars(n int) string { return nd.From(n, "ab=,\" /") }

// zzWords: up to n strings.
func zzWords(n int) []string {
	var r []string
	for i, k := 0, nd.Choose(n+1); i < k; i++ {
		r = append(r, zzChars(1+i%2))
	}
	return r
}

// SymBuildConfig: the base's configuration and the overrides are symbolic.
func SymBuildConfig() {
	d := zzScratch()
	defer os.RemoveAll(d)
	base := ociv1.Config{
		User: zzChars(1), WorkingDir: "/" + zzChars(1), StopSignal: zzChars(1),
		Env: []string{"PATH=/" + zzChars(1)}, Cmd: []string{zzChars(2), "x"}, Entrypoint: []string{zzChars(1)},
		Labels: map[string]string{"l": zzChars(1)}, Volumes: map[string]struct{}{"/v": {}}, ExposedPorts: map[string]struct{}{"80/tcp": {}},
	}
	args := []string{}
	haveBase := nd.Flip()
	if haveBase {
		zzImageFile(d+"/base", base, zzEnt("b", 1))
		args = append(args, "--base", d+"/base")
	} else {
		base = ociv1.Config{}
	}
	zzLayerFile(d+"/l", zzEnt("f", 2))

	want := base
	mask := 0
	if nd.SymThorough() {
		mask = nd.Choose(32)
	} else {
		mask = []int{0, 1, 2, 3, 4, 8, 16, 31, 12}[nd.Choose(9)]
	}
	if mask&1 != 0 {
		args = append(args, nd.Pick("--config.Env.clear", "-E"))
		want.Env = nil
	}
	if mask&2 != 0 {
		long := nd.Flip()
		for i, k := 0, 1+nd.Choose(2); i < k; i++ {
			v := "K" + zzChars(1) + "=" + zzChars(1)
			if i == 1 && nd.Flip() {
				v = "PATH=" + zzChars(1)
			}
			if long {
				args = append(args, "--config.Env.append="+v)
			} else {
				args = append(args, "-e", v)
			}
			want.Env = append(append([]string(nil), want.Env...), v)
		}
	}
	if mask&4 != 0 {
		want.Entrypoint = nil
		for i, k := 0, 1+nd.Choose(2); i < k; i++ {
			v := ""
			if !nd.Flip() {
				v = zzChars(i + 1)
			}
			args = append(args, "--config.Entrypoint", v)
			want.Entrypoint = append(want.Entrypoint, v)
		}
	}
	if mask&8 != 0 {
		want.Cmd = nil
		n := nd.Pick("--config.Cmd", "-c")
		for i, k := 0, 1+nd.Choose(2); i < k; i++ {
			v := ""
			if !nd.Flip() {
				v = zzChars(i + 1)
			}
			args = append(args, n, v)
			want.Cmd = append(want.Cmd, v)
		}
	}
	if mask&16 != 0 {
		v := zzChars(2)
		args = append(args, nd.Pick("--config.WorkingDir", "-w"), v)
		want.WorkingDir = v
	}
	args = append(args, d+"/l")
	err := zzExec(d+"/out", append([]string{"image", "build"}, args...)...)
	if err != nil {
		nd.Observe("error", err.Error())
	}
	nd.Assert(err == nil, "building the image fails")
	img, err := ociv1tarball.ImageFromPath(d+"/out", nil)
	nd.Assert(err == nil, "the output is not an image")
	cf, err := img.ConfigFile()
	nd.Assert(err == nil, "the output is not an image")
	c := cf.Config
	nd.Assert(zzSame(c.Env, want.Env), "the environment is not the base's (unless cleared) followed by the additions")
	nd.Assert(zzSame(c.Entrypoint, want.Entrypoint), "the entrypoint is not the requested one or else the base's")
	nd.Assert(zzSame(c.Cmd, want.Cmd), "the command is not the requested one or else the base's")
	nd.Assert(c.WorkingDir == want.WorkingDir, "the working directory is not the requested one or else the base's")
	nd.Assert(c.User == want.User && c.StopSignal == want.StopSignal, "the user or the stop signal changes")
	nd.Assert(len(c.Labels) == len(want.Labels) && c.Labels["l"] == want.Labels["l"] && len(c.Volumes) == len(want.Volumes) && len(c.ExposedPorts) == len(want.ExposedPorts),
		"labels, volumes or ports change")
	nd.Reach("built")
}

// SymBuildLayers: the layers and the tag.
func SymBuildLayers() {
	d := zzScratch()
	defer os.RemoveAll(d)
	names := []string{"a", "b", "c", "d"}
	var want []layh.Ent
	args := []string{}
	tag := nd.Choose(3)
	if tag > 0 {
		args = append(args, nd.Pick("--tag", "-t"), []string{"", "x/y:z", "qq"}[tag])
	}
	if nd.Flip() {
		args = append(args, "--config.WorkingDir", "/w")
	}
	if k := nd.Choose(4); k > 0 {
		var ls []layh.Ent
		for i := 0; i < k-1; i++ {
			ls = append(ls, zzEnt("base"+names[nd.Choose(2)], nd.Byte()))
		}
		zzImageFile(d+"/base", ociv1.Config{User: "u"}, ls...)
		want = append(want, ls...)
		args = append(args, "--base="+d+"/base")
	}
	n := 1 + nd.Choose(nd.Q(3, 4))
	for i := 0; i < n; i++ {
		// the same file may be given twice
		if i > 0 && nd.Flip() {
			want = append(want, want[len(want)-1])
			args = append(args, args[len(args)-1])
			continue
		}
		e := zzEnt(names[nd.Choose(2)], nd.Byte())
		zzLayerFile(d+"/l"+names[i], e)
		want = append(want, e)
		args = append(args, d+"/l"+names[i])
	}
	missing := nd.Choose(3) == 0
	if missing {
		args = append(args, d+"/nosuch")
	}
	err := zzExec(d+"/out", append([]string{"image", "build"}, args...)...)
	if missing {
		nd.Assert(err != nil, "a layer file that does not exist is ignored")
		b, err := os.ReadFile(d + "/out")
		nd.Assert(err == nil && len(b) == 0, "an image is written although a layer file is missing")
		return
	}
	if err != nil {
		nd.Observe("error", err.Error())
	}
	nd.Assert(err == nil, "building the image fails")
	img, err := ociv1tarball.ImageFromPath(d+"/out", nil)
	nd.Assert(err == nil, "the output is not an image")
	ls, err := img.Layers()
	nd.Assert(err == nil, "the output is not an image")
	nd.Assert(len(ls) == len(want), "the image does not have the base's layers and the given ones")
	for i, l := range ls {
		es := layh.RdLayer(l)
		nd.Assert(len(es) == 1 && es[0].Name == want[i].Name && es[0].Body[0] == want[i].Body[0], "the layers are not the base's followed by the given ones in order")
	}
	m, err := ociv1tarball.LoadManifest(func() (io.ReadCloser, error) {

		return os.Open(d + "/out")
	})
	nd.Assert(err == nil && len(m) == 1, "the output is not one image")
	switch tag {
	case 0:
		nd.Assert(len(m[0].RepoTags) == 0, "the image has a tag although none was given")
	case 1:
		nd.Assert(len(m[0].RepoTags) == 1 && m[0].RepoTags[0] == "x/y:z", "the image does not have the given tag")
	case 2:
		nd.Assert(len(m[0].RepoTags) == 1 && m[0].RepoTags[0] == "qq:latest", "the image does not have the given tag")
	}
	nd.Reach("built")
}

// zzBadImage: an image file whose configuration is not JSON.
func zzBadImage(p string) {
	b := []byte("IMG-BAD-CONFIG")
	if nd.SymNative() {
		var buf bytes.Buffer
		w := tar.NewWriter(&buf)
		for _, f := range [][2]string{{"manifest.json", `[{"Config":"c.json","RepoTags":null,"Layers":[]}]`}, {"c.json", "not JSON"}} {
			if w.WriteHeader(&tar.Header{Name: f[0], Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(f[1]))}) != nil {
				nd.SymSkip()
			}
			if _, err := w.Write([]byte(f[1])); err != nil {
				nd.SymSkip()
			}
		}
		if w.Close() != nil {
			nd.SymSkip()
		}
		b = buf.Bytes()
	}
	if os.WriteFile(p, b, 0o644) != nil {
		nd.SymSkip()
	}
}

// SymBuildBroken: a base that is missing, not an image, or has no readable configuration; a bad tag; a bad layer.
func SymBuildBroken() {
	d := zzScratch()
	defer os.RemoveAll(d)
	zzLayerFile(d+"/l", zzEnt("f", nd.Byte()))
	args := []string{}
	fault := nd.Choose(4)
	switch fault {
	case 0:
		args = append(args, "--base", d+"/nosuch")
	case 1:
		if os.WriteFile(d+"/base", []byte("junk"), 0o644) != nil {
			nd.SymSkip()
		}
		args = append(args, "--base", d+"/base")
	case 2:
		zzBadImage(d + "/base")
		args = append(args, "--base", d+"/base")
	case 3:
		args = append(args, "--tag", "x/y:"+nd.Pick("a b", "/"))
	}
	switch nd.Choose(3) {
	case 1:
		args = append(args, "--config.Cmd", "x")
	case 2:
		args = append(args, "-E")
	}
	args = append(args, d+"/l")
	err := zzExec(d+"/out", append([]string{"image", "build"}, args...)...)
	nd.Assert(err != nil, "an image is built although the base or the tag is no good")
	b, err := os.ReadFile(d + "/out")
	nd.Assert(err == nil && len(b) == 0, "an image is written although the base or the tag is no good")
	nd.Reach("refused")
}
