package whlh

import (
	"archive/tar"
	"encoding/base64"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// Modes: any host system and attribute word, for files of any category.
func Modes() {
	p := plat()
	p.UID, p.GID, p.UName, p.GName = int(nd.SymU16()), int(nd.SymU16()), lower('z'), lower('z')
	fn := "f." + nd.From(2, "bcehpsxy")
	e := zent{name: fn, creator: []uint16{0, 3, 10, 19, 7}[nd.Choose(5)], attrs: nd.SymU32(), tm: 1000000000}
	w := "lib/pure/" + fn
	rewritten := false
	switch nd.Choose(4) {
	case 1:
		e.name, w = data+"/scripts/"+fn, "bin/"+fn
		e.body = []byte("#!python\n")
		rewritten = true
	case 2:
		e.name, w = data+"/scripts/"+fn, "bin/"+fn
		e.body = []byte("#!/bin/sh\n")
	case 3:
		e.name, w = data+"/data/f/", "usr/f"
	}
	es := []zent{wheelFile("true"), e}
	es = append(es, zfile(info+"/entry_points.txt", []byte("[gui_scripts]\nx=a:b\n")))
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es, hook: bdist.PostInstallHooks(entry_points.CreateScripts(p), recording_installs.Record("sha256", "t", nil), pep376.RecordRequested(""))})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	for _, o := range os {
		nd.Assert(o.h.Uid == p.UID && o.h.Gid == p.GID && o.h.Uname == p.UName && o.h.Gname == p.GName, "an entry does not have the platform's owner")
		nd.Assert(o.h.Mode&0o7666 == 0o644, "an entry is not readable by all and writable by its owner only")
		nd.Assert(o.h.Typeflag == tar.TypeReg || o.h.Typeflag == tar.TypeDir, "an entry is neither a file nor a directory")
		exec := o.h.Mode&0o111 == 0o111
		nd.Assert(exec || o.h.Mode&0o111 == 0, "an entry is executable for some only")
		want := o.h.Typeflag == tar.TypeDir || o.name == "bin/x"
		if o.name == w {
			nd.Assert((o.h.Typeflag == tar.TypeDir) == strings.HasSuffix(e.name, "/"), "an entry has another type")
			unix := e.attrs >> 16
			want = want || rewritten || unix&0o170000 == 0o100000 && unix&0o111 != 0
		}
		nd.Assert(exec == want, "an entry is executable though it should not be, or the other way round")
	}
	nd.Assert(find(os, w) >= 0 && find(os, "bin/x") >= 0, "an entry is missing")
	nd.Reach("end")
}

// Times: any file times, minimum and maximum.
func Times() {
	p := plat()
	rt := func() int64 {
		v := nd.SymU32()
		nd.Assume(v >= 400000000 && v < 4200000000)
		return int64(v)
	}
	es := []zent{wheelFile("true"), zfile("f.py", []byte("x")), zfile(data+"/scripts/s", []byte("#!python"))}
	k := nd.Choose(3)
	es[0].tm = rt()
	es[1].tm = rt()
	es = append(es, record(es))
	var min, max time.Time
	switch k {
	case 0:
		min, max = time.Unix(rt(), 0), time.Unix(rt(), 0)
		nd.Assume(!min.After(max))
	case 1:
		max = time.Unix(rt(), 0)
	}
	l, err := install(req{plat: p, es: es, min: min, max: max, hook: recording_installs.Record("sha256", "t", nil)})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	if k == 2 { // the default maximum is derived from the wheel
		for _, e := range es {
			if t := time.Unix(e.tm, 0); t.After(max) {
				max = t
			}
		}
		max = max.Add(time.Second)
	}
	for _, o := range os {
		nd.Assert(!o.h.ModTime.After(max), "a timestamp is later than the maximum")
		nd.Assert(!o.h.ModTime.Before(min), "a timestamp is earlier than the minimum")
		want := max
		for _, e := range es {
			if o.name == "lib/pure/"+e.name || e.name == data+"/scripts/s" && o.name == "bin/s" {
				if o.name == "lib/pure/"+info+"/RECORD" {
					continue
				}
				want = time.Unix(e.tm, 0)
				if k == 0 {
					want = min
				}
				if want.After(max) {
					want = max
				}
				nd.Assert(o.h.ModTime.Equal(want), "a file does not keep its timestamp")
			}
		}
	}
	nd.Reach("end")
}

// parse splits RECORD the way a CSV reader does.
func parseCSV(s string) [][]string {
	var rows [][]string
	var r []string
	f := ""
	i := 0
	for i < len(s) {
		if f == "" && nd.SymBranch(s[i] == '"') {
			i++
			for i < len(s) {
				if nd.SymBranch(s[i] == '"') {
					if i+1 < len(s) && nd.SymBranch(s[i+1] == '"') {
						f += "\""
						i += 2
						continue
					}
					i++
					break
				}
				f += s[i : i+1]
				i++
			}
			continue
		}
		switch {
		case nd.SymBranch(s[i] == ','):
			r = append(r, f)
			f = ""
		case nd.SymBranch(s[i] == '\r'):
		case nd.SymBranch(s[i] == '\n'):
			rows = append(rows, append(r, f))
			r, f = nil, ""
		default:
			f += s[i : i+1]
		}
		i++
	}
	nd.Assert(r == nil && f == "", "RECORD does not end with a complete line")
	return rows
}

func quote(s string) string {
	q := "\""
	for i := 0; i < len(s); i++ {
		if nd.SymBranch(s[i] == '"') {
			q += "\""
		}
		q += s[i : i+1]
	}
	return q + "\""
}

// recOK checks the installed RECORD.
func recOK(os []out, site string, alg string, orig map[string][]byte) {
	i := find(os, site+"/"+info+"/RECORD")
	nd.Assert(i >= 0, "there is no RECORD")
	rows := parseCSV(string(os[i].body))
	seen := map[string]bool{}
	for _, r := range rows {
		nd.Assert(len(r) == 3, "a RECORD line does not have three fields")
		n := path.Join("/"+site, r[0])[1:]
		j := find(os, n)
		nd.Assert(j >= 0, "RECORD lists a file that is not installed")
		nd.Assert(!seen[n], "RECORD lists a file twice")
		seen[n] = true
		o := os[j]
		nd.Assert(o.h.Typeflag == tar.TypeReg, "RECORD lists a directory")
		if j == i || strings.HasSuffix(n, ".pyc") {
			nd.Assert(r[1] == "" && r[2] == "", "RECORD has a hash for itself or a compiled file")
			continue
		}
		b, a := o.body, alg
		if x, ok := orig[n]; ok {
			b, a = x, "sha256"
		}
		nd.Assert(r[1] == a+"="+base64.RawURLEncoding.EncodeToString(nd.Hash(a, b)), "RECORD has a wrong hash")
		nd.Assert(r[2] == strconv.Itoa(len(b)), "RECORD has a wrong size")
	}
	for _, o := range os {
		nd.Assert(o.h.Typeflag != tar.TypeReg || seen[o.name], "RECORD does not list an installed file")
	}
}

// Recorded: files of every category, with every supported hash, in both map orders.
func Recorded() {
	p := plat()
	switch nd.Choose(3) {
	case 1:
		p.Scheme.PureLib, p.Scheme.Scripts = "/u/l/p", "/u/b"
	case 2:
		p.Scheme.PureLib, p.Scheme.Scripts = "/opt/a/b/c/d/p", "/bin"
	}
	site := p.Scheme.PureLib[1:]
	es := []zent{wheelFile("true")}
	orig := map[string][]byte{}
	n := 1 + nd.Choose(2)
	for i := 0; i < n; i++ {
		b := nd.Bytes(1)
		if n == 1 {
			b = nd.Bytes(nd.Choose(3))
		}
		nm := string([]byte{byte('m' + i)})
		switch nd.Choose(6) {
		case 5:
			x := "c.d/y"
			if i == 0 {
				x = nd.From(nd.Choose(3), "cx")
			}
			es = append(es, zfile(nm+".py"+x, b))
		case 0:
			es = append(es, zfile(nm+".py", b))
		case 1:
			es = append(es, zfile("s/"+nm+".pyc", b))
		case 2:
			es = append(es, zfile(data+"/scripts/"+nm, b))
		case 3:
			b = append([]byte("#!python"), b...)
			for j := 8; j < len(b); j++ {
				nd.Assume(b[j] != 'w')
			}
			es = append(es, zfile(data+"/scripts/"+nm, b))
			orig[p.Scheme.Scripts[1:]+"/"+nm] = b
		case 4:
			es = append(es, zfile(data+"/data/"+nm+"/", nil))
		}
	}
	es = append(es, record(es))
	algs := []string{"", "sha256", "sha512", "sha384", "sha224", "sha1", "md5"}
	alg, inst := "sha512", "x y"
	if n == 1 {
		alg, inst = algs[nd.Choose(len(algs))], "pip"
	}
	var runs [2][]out
	for i := range runs {
		if i == 1 && n == 1 {
			continue
		}
		nd.SymMapMode(4 * i)
		l, err := install(req{plat: p, es: es, hook: bdist.PostInstallHooks(pep376.RecordRequested(""), recording_installs.Record(alg, inst, nil))})
		nd.Assert(err == nil, "installing a good wheel fails")
		runs[i] = read(l)
	}
	nd.SymMapMode(0)
	os := runs[0]
	nd.Assert(n == 1 || same(os, runs[1]), "the installed files depend on map order")
	if alg == "" {
		alg = "sha256"
	}
	recOK(os, site, alg, orig)
	i := find(os, site+"/"+info+"/INSTALLER")
	nd.Assert(i >= 0 && string(os[i].body) == inst+"\n", "INSTALLER does not name the tool")
	nd.Reach("end")
}

// RecordedNames: names that need quoting.
func RecordedNames() {
	p := plat()
	nm := nd.From(1+nd.Choose(nd.Q(2, 3)), "a,\"# =.-")
	nd.Assume(nm != "." && nm != "..")
	es := []zent{wheelFile("true")}
	f := zfile(nm, []byte("x"))
	s := quote(nm)
	if nd.Flip() {
		f.name = data + "/scripts/" + nm
		s = quote(f.name)
	}
	rec := recRow(es[0].name, es[0].body) + s + "," + recHash("sha256", f.body) + ",1\n" + info + "/RECORD,,\n"
	es = append(es, f, zfile(info+"/RECORD", []byte(rec)))
	l, err := install(req{plat: p, es: es, hook: recording_installs.Record("sha256", "t", nil)})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	recOK(os, "lib/pure", "sha256", nil)
	nd.Reach("end")
}

// RecordedBad: an unknown hash algorithm is refused.
func RecordedBad() {
	alg := nd.Pick("sha3", "SHA256", "crc32", "x", " ")
	es := []zent{wheelFile("true")}
	es = append(es, record(es))
	_, err := install(req{plat: plat(), es: es, hook: recording_installs.Record(alg, "t", nil)})
	nd.Assert(err != nil, "an unknown hash algorithm is accepted")
	nd.Reach("end")
}

// RecordedLines: names with line breaks.
func RecordedLines() {
	nm := "a" + nd.From(1, "\r\nb") + "c"
	es := []zent{wheelFile("true")}
	f := zfile(nm, []byte("x"))
	rec := recRow(es[0].name, es[0].body) + quote(nm) + "," + recHash("sha256", f.body) + ",1\n" + info + "/RECORD,,\n"
	es = append(es, f, zfile(info+"/RECORD", []byte(rec)))
	l, err := install(req{plat: plat(), es: es, hook: recording_installs.Record("sha256", "t", nil)})
	nd.Assert(err == nil, "installing a good wheel fails")
	recOK(read(l), "lib/pure", "sha256", nil)
	nd.Reach("end")
}
