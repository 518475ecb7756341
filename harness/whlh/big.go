package whlh

import (
	"strconv"

	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// BigFiles: contents of any size, at each place; scripts are rewritten.
func BigFiles() {
	b := nd.Big(nd.BigSize(), 512, 4096, 32768)
	name, to := "f", "lib/pure/f"
	want := b
	script := nd.Choose(3)
	if script > 0 {
		name, to = data+"/scripts/f", "bin/f"
		if script == 2 {
			b = append([]byte("#!python\n"), b...)
			want = append([]byte("#!/usr/bin/py\n"), b[9:]...)
		} else {
			b[0] = 'x'
		}
	}
	es := []zent{wheelFile("true"), zfile(name, b), zfile("g", []byte("g"))}
	es = append(es, record(es))
	orig := map[string][]byte{}
	if script == 2 {
		orig["bin/f"] = b
	}
	l, err := install(req{plat: plat(), es: es, hook: recording_installs.Record("sha256", "t", nil)})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	nd.Assert(count(os, to) == 1 && count(os, "lib/pure/g") == 1, "a file is not present exactly once at its place")
	nd.Assert(string(os[find(os, to)].body) == string(want), "an installed file does not have its content")
	nd.Assert(string(os[find(os, "lib/pure/g")].body) == "g", "an installed file does not have its content")
	recOK(os, "lib/pure", "sha256", orig)
	nd.Reach("end")
}

// BigTampered: one changed byte anywhere in a big file, or one more or less.
func BigTampered() {
	b := nd.Big(nd.BigSize())
	good := append([]byte(nil), b...)
	switch nd.Choose(4) {
	case 0:
		i := []int{0, len(b) / 2, len(b) - 1, 512, 4096, 32768, 510}[nd.Choose(7)]
		nd.Assume(i < len(b))
		x := nd.Byte()
		nd.Assume(x != 0)
		b[i] ^= x
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, nd.Byte())
	case 3: // not tampered with
	}
	es := []zent{wheelFile("true"), zfile("f", good)}
	if nd.Flip() {
		es[1].name = data + "/data/f"
	}
	rec := record(es)
	es[1].body = b
	l, err := install(req{plat: plat(), es: append(es, rec)})
	if string(b) != string(good) {
		nd.Assert(err != nil, "a wheel with a file that is not the recorded one is installed")
		nd.Reach("bad")
		return
	}
	nd.Assert(err == nil, "installing a good wheel fails")
	read(l)
	nd.Reach("good")
}

// ManyFiles: a wheel of many files; each is at its place and in RECORD once.
func ManyFiles() {
	n := nd.Q(20, 40)
	bad := nd.Choose(n + 2) // which one is not the recorded one
	es := []zent{wheelFile("true")}
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k := i * 7 % n
		nm := string([]byte{'a' + byte(k)/16, 'a' + byte(k)%16})
		d := "lib/pure/" + nm
		switch k % 4 {
		case 1:
			d += ".py"
			nm += ".py"
		case 2:
			d = "bin/" + nm
			nm = data + "/scripts/" + nm
		case 3:
			d = "lib/pure/p/" + nm
			nm = "p/" + nm
		}
		es = append(es, zfile(nm, []byte{byte(k), nd.Byte()}))
		want[d] = string(es[len(es)-1].body)
	}
	rec := record(es)
	if bad == n+1 { // none is recorded
		rec = zfile(info+"/RECORD", []byte(recRow(es[0].name, es[0].body)+info+"/RECORD,,\n"))
	}
	if bad < n {
		es[1+bad].body = append([]byte("x"), es[1+bad].body...)
	}
	es = append(es, rec)
	r := nd.Choose(3) * 7
	es = append(append([]zent(nil), es[r:]...), es[:r]...)
	l, err := install(req{plat: plat(), es: es, hook: recording_installs.Record("sha256", "t", nil)})
	if bad != n {
		nd.Assert(err != nil, "a wheel with a file that is not the recorded one is installed")
		nd.Reach("bad")
		return
	}
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	for d, b := range want {
		nd.Assert(count(os, d) == 1 && string(os[find(os, d)].body) == b, "a file is not present exactly once at its place with its content")
	}
	nd.Assert(len(parseCSV(string(os[find(os, "lib/pure/"+info+"/RECORD")].body))) == n+n/4+3, "RECORD does not list exactly the installed files")
	recOK(os, "lib/pure", "sha256", nil)
	nd.Reach("good")
}

// ManyScripts: many entry points and hooks.
func ManyScripts() {
	n := nd.Q(14, 30)
	txt := "[console_scripts]\n"
	for i := 0; i < n; i++ {
		if i == n/2 {
			txt += "[gui_scripts]\n"
		}
		k := i * 5 % n
		txt += "s" + strconv.Itoa(k) + " = m" + strconv.Itoa(k) + ":f\n"
	}
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte(txt))}
	es = append(es, record(es))
	p := plat()
	l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	for i := 0; i < n; i++ {
		k := i * 5 % n
		s := "s" + strconv.Itoa(k)
		nd.Assert(count(os, "bin/"+s) == 1, "a launcher is missing")
		sb := p.ConsoleShebang
		if i >= n/2 {
			sb = p.GraphicalShebang
		}
		launcher(os, "bin/"+s, sb, ref{"m" + strconv.Itoa(k), "f"})
	}
	nd.Reach("end")
}
