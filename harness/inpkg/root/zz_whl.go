package main

import (
	"archive/tar"
	"io"
	"os"
	"strings"

	"github.com/datawire/ocibuild/zz_verif/nd"
	"github.com/datawire/ocibuild/zz_verif/pyh"
	"github.com/datawire/ocibuild/zz_verif/whlh"
)

// SymWheelCmd: "layer wheel" installs per the platform file.
func SymWheelCmd() {
	d := zzScratch()
	defer os.RemoveAll(d)
	pyh.Tool(d + "/tool")
	body := append(nd.Bytes(1), "x"...)
	cons, gui := "/u/py", "/u/pyw"
	uid, us := 11, "11"
	uname, gname := "un", "gn"
	scr := "/opt/s"
	comp := `["` + d + `/tool", "-m"]`
	head := ""
	lower := false
	bad := false
	tampered := false
	pf := d + "/plat.yml"
	switch nd.Choose(6) {
	case 0: // texts
		cons, gui = "/"+nd.From(2, "ab/3"), "/"+nd.From(1, "ab")
		uname, gname = nd.From(1, "ab"), nd.From(1, "ab")
	case 1:
		us, uid = zzDigit('0')
		lower = nd.Flip()
	case 2:
		scr = nd.Pick("/bin", "/usr/local/bin", "/lib/pure/b")
	case 3: // an unknown or mistyped key
		switch nd.Choose(3) {
		case 0:
			head = nd.Pick(`"Shebang": "x", `, `"scheme2": {}, `, `"Verbose": true, `)
		case 1:
			head = `"` + nd.From(2, "UIDx") + `": 1, `
		case 2:
			us = nd.Pick(`"x"`, "[]", "1.5")
		}
		bad = true
	case 4:
		bad = true
		switch nd.Choose(4) {
		case 0:
			comp = "[]"
		case 1:
			comp = "null"
		case 2:
			comp = `["` + d + `/nosuch"]`
		case 3:
			comp = `["` + d + `/tool", "fail"]`
		}
	case 5:
		bad = true
		switch nd.Choose(4) {
		case 0:
			pf = d + "/nosuch.yml"
		case 1:
			tampered = true
		case 2:
			scr = "opt/s"
		case 3:
			cons, gui = "", ""
		}
	}
	ks := `"ConsoleShebang": "` + cons + `", "GraphicalShebang": "` + gui + `", "Scheme": {"purelib": "/lib/pure", "platlib": "/lib/plat", "headers": "/inc", "scripts": "` + scr + `", "data": "/usr"}, "UID": ` + us + `, "GID": 12, "UName": "` + uname + `", "GName": "` + gname + `", "PyCompile": ` + comp
	if lower {
		for _, k := range []string{"ConsoleShebang", "GraphicalShebang", "Scheme", "UID", "GID", "UName", "GName", "PyCompile"} {
			ks = strings.Replace(ks, `"`+k+`"`, `"`+strings.ToLower(k)+`"`, 1)
		}
	}
	zzMust(os.WriteFile(d+"/plat.yml", []byte("{"+head+ks+"}\n"), 0o644))
	whl := whlh.SimpleWheel(d, body, tampered)
	err := zzExec(d+"/out", "layer", "wheel", "--platform-file", pf, whl)
	if bad {
		b, rerr := os.ReadFile(d + "/out")
		nd.Assert(err != nil, "a wheel is installed although the platform or the wheel is not right")
		nd.Assert(rerr == nil && len(b) == 0, "something is printed although it fails")
		nd.Reach("error")
		return
	}
	nd.Assert(err == nil, "installing a good wheel fails")
	info := "lib/pure/d-1.dist-info/"
	want := map[string]string{
		"lib/pure/f.py": string(body), "lib/pure/__pycache__/f.pyc": "C" + string(body),
		info + "INSTALLER": "ocibuild layer wheel\n", info + "RECORD": "?", info + "WHEEL": "?", info + "entry_points.txt": "?",
		scr[1:] + "/x": "#!" + cons + "\n", scr[1:] + "/y": "#!" + gui + "\n",
	}
	f, err := os.Open(d + "/out")
	zzMust(err)
	t := tar.NewReader(f)
	seen := map[string]bool{}
	rec := ""
	for {
		h, err := t.Next()
		if err == io.EOF {
			break
		}
		nd.Assert(err == nil, "what is printed is not a layer")
		nd.Assert(h.Uid == uid && h.Gid == 12 && h.Uname == uname && h.Gname == gname, "an entry does not have the platform's owner")
		b, err := io.ReadAll(t)
		nd.Assert(err == nil, "what is printed is not a layer")
		if h.Typeflag == tar.TypeDir {
			continue
		}
		nd.Assert(h.ModTime.Unix() <= 1000000010, "an installed file is newer than the wheel's")
		w, ok := want[h.Name]
		nd.Assert(ok && !seen[h.Name], "the layer has a file that does not belong to it")
		seen[h.Name] = true
		if h.Name == info+"RECORD" {
			rec = string(b)
		}
		switch {
		case w == "?":
		case strings.HasPrefix(w, "#!"):
			nd.Assert(strings.HasPrefix(string(b), w), "a launcher does not name the platform's interpreter")
		default:
			nd.Assert(string(b) == w, "an installed file has another content")
		}
	}
	zzMust(f.Close())
	nd.Assert(len(seen) == len(want), "the layer lacks a file")
	rows := strings.Split(strings.TrimSuffix(rec, "\r\n"), "\r\n")
	nd.Assert(len(rows) == len(want), "RECORD does not list exactly the installed files")
	for n := range want {
		r := "../../" + n
		if strings.HasPrefix(n, "lib/pure/") {
			r = n[len("lib/pure/"):]
		}
		found := false
		for _, row := range rows {
			found = found || strings.HasPrefix(row, r+",")
		}
		nd.Assert(found, "RECORD does not list exactly the installed files")
	}
	nd.Reach("installed")
}
