package main

import (
	"archive/tar"
	"bytes"
	"context"
	"os"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func zzMust(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

// SymGoOutput: --output leaves an up-to-date layer file alone and replaces any other.
func SymGoOutput() {
	d := zzScratch()
	defer os.RemoveAll(d)
	body := nd.Bytes(1)
	layh.GoTool(d, body, "1000")
	os.Setenv("SOURCE_DATE_EPOCH", "1600000000")
	out := d + "/layer"

	// what is there before
	oldTime := []int64{1000, 5}[nd.Choose(2)]
	old := []layh.Ent{
		{Name: "usr", Kind: '5', Mode: 0o755, Uname: "root", Time: oldTime},
		{Name: "usr/local", Kind: '5', Mode: 0o755, Uname: "root", Time: oldTime},
		{Name: "usr/local/bin", Kind: '5', Mode: 0o755, Uname: "root", Time: oldTime},
		{Name: "usr/local/bin/a", Kind: '0', Mode: 0o755, Uname: "root", Time: oldTime, Body: nd.Bytes(1)},
	}
	prior := nd.Choose(6)
	switch prior {
	case 1: // a longer one
		old[3].Body = append(old[3].Body, "a good deal longer"...)
	case 2:
		old[3].Mode = int64(0o600 | int(nd.Byte())&0o177)
	case 3: // no file
		old = nil
	case 4: // one entry more
		old = append(old, layh.Ent{Name: "usr/local/bin/b", Kind: '0', Mode: 0o755, Uname: "root", Time: oldTime, Body: body})
	case 5: // made by the command itself
		old = nil
		zzGo(zzMain2("layer", "gobuild", "--output", out, "./cmd/a"))
		body2 := nd.Bytes(1)
		layh.GoTool(d, body2, "2000")
		body = body2
	}
	if old != nil {
		for i := range old {
			old[i].Uname = "root"
		}
		zzMust(os.WriteFile(out, zzTarG(old), 0o644))
	}
	var before []byte
	if prior != 3 {
		var err error
		before, err = os.ReadFile(out)
		zzMust(err)
		zzMust(os.Chtimes(out, time.Unix(77, 0), time.Unix(77, 0)))
	}
	var oldEnts []layh.Ent
	if prior != 3 {
		oldEnts = layh.RdLayer(zzOpen(out))
	}

	f, err := os.Create(d + "/stdout")
	zzMust(err)
	was := os.Stdout
	os.Stdout = f
	err = zzMain2("layer", "gobuild", nd.Pick("--output", "-o"), out, "./cmd/a")
	os.Stdout = was
	zzMust(f.Close())
	nd.Assert(err == nil, "gobuild fails")
	so, err := os.ReadFile(d + "/stdout")
	nd.Assert(err == nil && len(so) == 0, "the layer also goes to the standard output")

	same := len(oldEnts) == 4 && oldEnts[3].Mode == 0o755 && string(oldEnts[3].Body) == string(body)
	st, err := os.Stat(out)
	nd.Assert(err == nil, "there is no layer file")
	if nd.SymBranch(same) {
		after, err := os.ReadFile(out)
		nd.Assert(err == nil && string(after) == string(before), "an up-to-date layer file is rewritten")
		nd.Assert(st.ModTime().Unix() == 77, "an up-to-date layer file is touched")
		nd.Reach("kept")
		return
	}
	es := layh.RdLayer(zzOpen(out))
	nd.Assert(len(es) == 4 && es[3].Name == "usr/local/bin/a" && string(es[3].Body) == string(body) && es[3].Mode == 0o755,
		"a layer file that differs is not replaced by the new layer")
	all, err := os.ReadFile(out)
	zzMust(err)
	out2 := d + "/layer2"
	zzGo(zzMain2("layer", "gobuild", "--output", out2, "./cmd/a"))
	fresh, err := os.ReadFile(out2)
	zzMust(err)
	nd.Assert(len(all) == len(fresh), "a replaced layer file keeps some of the old one")
	nd.Reach("replaced")
}

// zzMain2 runs the program with the given arguments, as main does.
func zzMain2(args ...string) error {
	argparser.SetArgs(args)
	return argparser.ExecuteContext(context.Background())
}

func zzGo(err error) { nd.Assert(err == nil, "gobuild fails") }

func zzOpen(p string) ociv1.Layer {
	l, err := ociv1tarball.LayerFromFile(p)
	nd.Assert(err == nil, "the file is not a layer")
	return l
}

// zzTarG packs entries with the group the command gives them.
func zzTarG(es []layh.Ent) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range es {
		zzMust(w.WriteHeader(&tar.Header{Name: e.Name, Typeflag: e.Kind, Mode: e.Mode, Uname: "root", Gname: "root", Size: int64(len(e.Body)), ModTime: time.Unix(e.Time, 0)}))
		_, err := w.Write(e.Body)
		zzMust(err)
	}
	zzMust(w.Close())
	return b.Bytes()
}

func zzHeaders(p string) []*tar.Header {
	b, err := os.ReadFile(p)
	zzMust(err)
	t := tar.NewReader(bytes.NewReader(b))
	var r []*tar.Header
	for {
		h, err := t.Next()
		if err != nil {
			return r
		}
		r = append(r, h)
	}
}
