package main

import (
	"bytes"
	"os"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
	"github.com/datawire/ocibuild/zz_verif/repoh"
)

func zzEntEq(a, b layh.Ent) bool {
	return a.Name == b.Name && a.Kind == b.Kind && a.Link == b.Link && a.Mode == b.Mode && a.UID == b.UID && a.GID == b.GID && a.Uname == b.Uname && string(a.Body) == string(b.Body)
}

// SymSquashCmd: the squash command squashes the files it is given in order.
func SymSquashCmd() {
	d := zzScratch()
	defer os.RemoveAll(d)
	n := 2 + nd.Choose(2)
	args := []string{"layer", "squash"}
	var ls []ociv1.Layer
	for i := 0; i < n; i++ {
		p := d + "/l" + string([]byte{byte('0' + i)})
		var es []layh.Ent
		switch nd.Choose(4) {
		case 0:
			es = []layh.Ent{zzEnt("a", nd.Byte())}
		case 1:
			es = []layh.Ent{zzEnt("b", nd.Byte())}
		case 2:
			es = []layh.Ent{{Name: ".wh.a", Kind: '0'}}
		case 3:
			es = []layh.Ent{{Name: "a", Kind: '2', Link: "b", Mode: 0o777}}
		}
		if i == 0 && nd.Flip() { // from a process, say
			if !execw.Pipe(p, zzTar(es)) {
				nd.SymSkip()
			}
		} else {
			zzLayerFile(p, es...)
		}
		args = append(args, p)
		ls = append(ls, layh.MkLayer(es))
	}
	missing := nd.Choose(4) == 0
	if missing {
		args = append(args, d+"/nosuch")
	}
	err := zzExec(d+"/out", args...)
	if missing {
		b, rerr := os.ReadFile(d + "/out")
		nd.Assert(err != nil && rerr == nil && len(b) == 0, "a missing layer file is not an error")
		nd.Reach("missing")
		return
	}
	nd.Assert(err == nil, "squashing fails")
	w, err := squash.Squash(ls)
	nd.Assert(err == nil, "squashing fails")
	want := layh.RdLayer(w)
	got := layh.RdLayer(zzOpen(d + "/out"))
	nd.Assert(len(got) == len(want), "the command writes another layer than the squashed one")
	for i := range got {
		nd.Assert(zzEntEq(got[i], want[i]), "the command writes another layer than the squashed one")
	}
	nd.Reach("squashed")
}

func zzDigit(lo byte) (string, int) {
	c := nd.Byte()
	nd.Assume(c >= lo && c <= '9')
	return string([]byte{c}), int(c - '0')
}

// SymDirCmd: the dir command applies its flags.
func SymDirCmd() {
	d := zzScratch()
	defer os.RemoveAll(d)
	in := d + "/in"
	zzMust(os.Mkdir(in, 0o755))
	body := nd.Bytes(1)
	zzMust(os.WriteFile(in+"/f", body, 0o644))
	zzMust(os.Lchown(in+"/f", 7, 8))
	zzMust(os.Chmod(in+"/f", 0o640))
	zzMust(os.Chtimes(in+"/f", time.Unix(1000, 0), time.Unix(1000, 0)))
	zzMust(os.Symlink("f", in+"/l"))
	zzMust(os.Lchown(in+"/l", 7, 8))
	os.Setenv("SOURCE_DATE_EPOCH", "900")
	args := []string{"layer", "dir"}
	prefix := nd.Pick("", "p", "usr/x")
	puid, pgid, uid, gid := 0, 0, 7, 8
	puname, pgname, uname, gname := "root", "root", "", ""
	s := ""
	if prefix != "" {
		args = append(args, "--prefix", prefix)
		if nd.Flip() {
			s, puid = zzDigit('0')
			args = append(args, "--prefix-uid="+s)
			s, pgid = zzDigit('0')
			args = append(args, "--prefix-gid", s)
		}
		if nd.Flip() {
			puname, pgname = nd.From(1, "ab"), nd.From(1, "ab")
			args = append(args, "--prefix-uname", puname, "--prefix-gname", pgname)
		}
	}
	if nd.Flip() {
		s, uid = zzDigit('0')
		args = append(args, "--chown-uid="+s)
	}
	if nd.Flip() {
		s, gid = zzDigit('0')
		args = append(args, "--chown-gid="+s)
	}
	if nd.Flip() {
		uname = nd.From(1, "ab")
		args = append(args, "--chown-uname="+uname)
	}
	gname = nd.From(1, "ab")
	args = append(args, "--chown-gname="+gname)
	err := zzExec(d+"/out", append(args, in)...)
	nd.Assert(err == nil, "making a layer from a directory fails")
	pre := ""
	np := 0
	if prefix != "" {
		pre = prefix + "/"
		np = 1 + bytes.Count([]byte(prefix), []byte("/"))
	}
	hs := zzHeaders(d + "/out")
	nd.Assert(len(hs) == np+2, "the layer does not have exactly the directory's files below the prefix")
	for i, h := range hs {
		nd.Assert(h.ModTime.Unix() <= 900, "a timestamp is later than SOURCE_DATE_EPOCH")
		if i < np {
			nd.Assert(h.Uid == puid && h.Gid == pgid && h.Uname == puname && h.Gname == pgname && h.Typeflag == '5', "a prefix directory does not have the owner the flags ask for")
			continue
		}
		nd.Assert(h.Uid == uid && h.Gid == gid && h.Gname == gname, "a file does not have the owner the flags ask for")
		if uname != "" {
			nd.Assert(h.Uname == uname, "a file does not have the owner the flags ask for")
		}
	}
	nd.Assert(hs[np].Name == pre+"f" && hs[np].Typeflag == '0' && hs[np].Mode&0o7777 == 0o640 && hs[np].Size == 1, "a file is not below the prefix with its mode and size")
	nd.Assert(hs[np+1].Name == pre+"l" && hs[np+1].Typeflag == '2' && hs[np+1].Linkname == "f", "a symlink is not below the prefix with its target")
	nd.Reach("layer")
}

// SymGetWheel: the getwheel command prints the named file, checked, or nothing.
func SymGetWheel() {
	d := zzScratch()
	defer os.RemoveAll(d)
	body := nd.Bytes(1 + nd.Choose(2))
	other := nd.Bytes(1)
	claimed := body
	bad := nd.Flip()
	if bad {
		claimed = nd.Bytes(1)
		bad = nd.SymBranch(string(claimed) != string(body))
	}
	sum := repoh.Sum("sha256", claimed)
	name := nd.Pick("P_q-1.0-py3-none-any.whl", "a-1-2-py2.py3-none-any.whl")
	dist, norm := "P_q", "p-q"
	if name[0] == 'a' {
		dist, norm = "a", "a"
	}
	a := func(n, href string) string { return `<a href="` + href + `">` + n + `</a>` }
	hit := a(name, "/f/"+name+"#sha256="+sum)
	near := a(name+".asc", "/o") + a(dist+"-1.0-py3-none-any2.whl", "/o") + a(dist+"-1.1.tar.gz", "/o")
	page := near + hit
	has := true
	switch nd.Choose(4) {
	case 1:
		page = hit + near
	case 2:
		page, has = near, false
	case 3:
		page = hit + a(name, "/o")
	}
	s := repoh.Serve(map[string][]byte{
		"http://h/s/" + norm + "/": []byte("<!DOCTYPE html><html><body>" + page + "</body></html>"),
		"http://h/f/" + name:       body,
		"http://h/o":               other,
	})
	if nd.Choose(6) == 0 {
		s = repoh.Serve(nil)
		has = false
	}
	err := zzExec(d+"/out", "python", "getwheel", "--index-server="+nd.Pick("http://h/s/", "http://h/s"), name)
	out, rerr := os.ReadFile(d + "/out")
	nd.Assert(rerr == nil, "no output")
	if !has || bad {
		nd.Assert(err != nil, "a file that the index does not have, or with another checksum, is not an error")
		nd.Assert(len(out) == 0, "something is printed although the wheel cannot be had")
		nd.Reach("failed")
		return
	}
	nd.Assert(err == nil, "fetching a wheel fails")
	nd.Assert(string(out) == string(body), "the output is not the file's content")
	nd.Assert(len(s.Log()) == 2, "the command makes other requests than for the page and the file")
	nd.Reach("fetched")
}

// SymGetWheelName: a name that is no wheel file name.
func SymGetWheelName() {
	d := zzScratch()
	defer os.RemoveAll(d)
	s := repoh.Serve(map[string][]byte{"http://h/s/a/": []byte(`<a href="/f">a-1.tar.gz</a>`), "http://h/f": []byte("x")})
	err := zzExec(d+"/out", "python", "getwheel", "--index-server=http://h/s/", nd.Pick("a-1.tar.gz", "a.whl", "a-1-py3-none.whl", "a-x y-py3-none-any.whl"))
	out, rerr := os.ReadFile(d + "/out")
	nd.Assert(err != nil && rerr == nil && len(out) == 0, "something that is no wheel file name is accepted")
	nd.Assert(len(s.Log()) == 0, "a request is made for something that is no wheel file name")
	nd.Reach("refused")
}
