package whlh

import (
	"archive/tar"
	"context"
	"path"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var cats = []string{"purelib", "platlib", "headers", "scripts", "data"}

func lower(last byte) string {
	c := nd.Byte()
	nd.Assume(c >= 'a' && c <= last)
	return string([]byte{c})
}

// Place: files of every category land at their place, in every map order.
func Place() {
	pure := nd.Pick("true", "false")
	root := map[string]string{"true": "lib/pure", "false": "lib/plat"}[pure]
	dest := map[string]string{"purelib": "lib/pure", "platlib": "lib/plat", "headers": "inc", "scripts": "bin", "data": "usr"}
	es := []zent{wheelFile(pure)}
	n := 1 + nd.Choose(nd.Q(2, 3))
	var want []string
	for i := 0; i < n; i++ {
		name := lower('c')
		if nd.Flip() {
			name += "/" + lower('c')
		}
		var w string
		if k := nd.Choose(len(cats) + 1); k < len(cats) {
			w = dest[cats[k]] + "/" + name
			name = data + "/" + cats[k] + "/" + name
		} else {
			w = root + "/" + name
		}
		for _, o := range want {
			nd.Assume(o != w && !within(o, w) && !within(w, o))
		}
		want = append(want, w)
		es = append(es, zfile(name, nd.Bytes(nd.Choose(2))))
	}
	bodies := es[1:]
	es = append(es, record(es))
	nd.SymMapMode(4 * nd.Choose(2))
	l, err := install(req{plat: plat(), es: es})
	nd.SymMapMode(0)
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	for i, w := range want {
		nd.Assert(count(os, w) == 1, "a file is not present exactly once at its place")
		o := os[find(os, w)]
		nd.Assert(o.h.Typeflag == tar.TypeReg && string(o.body) == string(bodies[i].body), "an installed file does not have its content")
	}
	nd.Assert(count(os, root+"/"+info+"/WHEEL") == 1, "the WHEEL file is not installed")
	checkDirs(os)
	reg := 0
	for _, o := range os {
		if o.h.Typeflag == tar.TypeReg {
			reg++
		}
	}
	nd.Assert(reg == n+1, "there are extra files")
	nd.Observe("layer", dump(os))
	nd.Reach("end")
}

// checkDirs: each parent directory has an entry before its children, and there are no other directories.
func checkDirs(os []out) {
	for i, o := range os {
		if d := path.Dir(o.name); d != "." {
			j := find(os, d)
			nd.Assert(j >= 0 && j < i, "a parent directory has no entry before its children")
			nd.Assert(os[j].h.Typeflag == tar.TypeDir, "a parent is not a directory")
		}
		nd.Assert(count(os, o.name) == 1, "a path is present twice")
	}
}

// PlaceDirs: explicit directory entries are harmless, and an empty data directory disappears.
func PlaceDirs() {
	dirAttrs := []uint32{0o40755<<16 | 0x10, 0, 0o755 << 16}[nd.Choose(3)]
	es := []zent{wheelFile("true")}
	add := func(names ...string) {
		for _, n := range names {
			e := zfile(n, nil)
			if strings.HasSuffix(n, "/") {
				e.attrs = dirAttrs
				if dirAttrs == 0 {
					e.creator = 0
				}
			}
			es = append(es, e)
		}
	}
	if nd.Flip() {
		add(info + "/")
	}
	k := cats[nd.Choose(len(cats))]
	dest := map[string]string{"purelib": "lib/pure", "platlib": "lib/plat", "headers": "inc", "scripts": "bin", "data": "usr"}[k]
	switch nd.Choose(4) {
	case 0:
		add(data + "/")
	case 1:
		add(data+"/", data+"/"+k+"/")
	case 2:
		add(data+"/"+k+"/sub/", data+"/"+k+"/")
	}
	es = append(es, zfile(data+"/"+k+"/f", nd.Bytes(1)), zfile("m/n", nd.Bytes(1)))
	switch nd.Choose(3) {
	case 0:
		add("m/")
	case 1: // only a directory says that its parents exist
		add("q/r/s/", data+"/"+k+"/t/u/")
	}
	es = append(es, record(es))
	nd.SymMapMode(4 * nd.Choose(2))
	l, err := install(req{plat: plat(), es: es})
	nd.SymMapMode(0)
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	checkDirs(os)
	for _, o := range os {
		nd.Assert(!strings.Contains(o.name, ".data"), "the data directory is left over")
	}
	for _, e := range es {
		w := path.Join("lib/pure", e.name)
		if strings.HasPrefix(e.name, data+"/"+k) {
			w = dest + strings.TrimSuffix(e.name[len(data+"/"+k):], "/")
		}
		if strings.HasSuffix(e.name, "/RECORD") || e.name == data+"/" {
			continue
		}
		i := find(os, w)
		nd.Assert(i >= 0, "an archive entry is not installed")
		nd.Assert((os[i].h.Typeflag == tar.TypeDir) == strings.HasSuffix(e.name, "/"), "an entry has another type")
		nd.Assert(string(os[i].body) == string(e.body), "an installed file does not have its content")
	}
	nd.Observe("layer", dump(os))
	nd.Reach("end")
}

// PlaceAny: any subdirectory of the data directory, any file name and any Root-Is-Purelib value.
func PlaceAny() {
	focus := nd.Choose(3)
	pure := "true"
	if focus == 0 {
		pure = nd.From(3+nd.Choose(3), "truefalsyTRUE1")
	}
	key := "scripts"
	if focus == 1 {
		key = nd.From(4+nd.Choose(5), "abcdehilmnoprstuy")
	}
	name := lower('c')
	if focus == 2 {
		name = nd.Str(1 + nd.Choose(nd.Q(3, 4)))
		for i := 0; i < len(name); i++ {
			nd.Assume(name[i] > ' ' && name[i] < 0x7f && name[i] != '/' && name[i] != '\\' && name[i] != ',' && name[i] != '"')
		}
		nd.Assume(name != "." && name != ".." && name != "f")
		key = cats[nd.Choose(len(cats))]
	}
	body := nd.Bytes(1)
	es := []zent{wheelFile(pure), zfile("f", nil), zfile(data+"/"+key+"/"+name, body)}
	es = append(es, record(es))
	l, err := install(req{plat: plat(), es: es})
	dest := ""
	for i, c := range cats {
		if nd.SymBranch(key == c) {
			dest = []string{"lib/pure", "lib/plat", "inc", "bin", "usr"}[i]
		}
	}
	if dest == "" {
		nd.Assert(err != nil, "files of an unknown category are installed or dropped")
		nd.Reach("unknown")
		return
	}
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	root := "lib/plat"
	if nd.SymBranch(pure == "true") {
		root = "lib/pure"
	} else if strings.EqualFold(pure, "true") {
		nd.SymSkip() // read differently by different tools
	}
	nd.Assert(count(os, root+"/f") == 1 && count(os, root+"/"+info+"/WHEEL") == 1, "a file is not present exactly once at its place")
	i := find(os, dest+"/"+name)
	nd.Assert(i >= 0, "a file is not present exactly once at its place")
	nd.Assert(os[i].h.Typeflag == tar.TypeReg && string(os[i].body) == string(body), "an installed file does not have its content")
	n := 0
	for _, o := range os {
		if o.h.Typeflag == tar.TypeReg {
			n++
		}
	}
	want := 3
	if strings.HasSuffix(name, ".py") {
		want = 4
	}
	nd.Assert(n == want, "there are extra files")
	nd.Reach("end")
}

// PlacePy: every Python source, wherever it is, is compiled, and nothing else is.
func PlacePy() {
	var seen []string
	p := plat()
	p.PyCompile = func(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		nd.Assert(len(pp) == 2 && strings.TrimPrefix(pp[0], "/") == "lib/pure" && strings.TrimPrefix(pp[1], "/") == "lib/plat", "sources are compiled with another search path")
		for _, f := range in {
			seen = append(seen, f.FullName())
		}
		return compile(ctx, clamp, pp, in)
	}
	es := []zent{wheelFile("true")}
	want := 0
	var names []string
	for i := 0; i < 2; i++ {
		name := "z.py"
		k := 2 * nd.Choose(2)
		if i == 0 {
			name = nd.From(3+nd.Choose(2), ".pyc_P")
			k = nd.Choose(4)
		}
		at := "lib/pure/"
		pre := ""
		switch k {
		case 1:
			pre, at = data+"/"+"data/", "usr/"
		case 2:
			pre, at = "m.py/", "lib/pure/m.py/"
		}
		py := strings.HasSuffix(name, ".py")
		e := zfile(pre+name, nd.Bytes(1))
		if k == 3 { // a directory
			e = zfile(name+"/", nil)
			e.attrs = 0o40755<<16 | 0x10
			py = false
		}
		nd.Assume(name != ".." && name != "m.py")
		for _, o := range es {
			nd.Assume(strings.TrimSuffix(o.name, "/") != strings.TrimSuffix(e.name, "/"))
		}
		es = append(es, e)
		if py {
			want++
			names = append(names, at+name)
		}
	}
	if nd.Flip() {
		d := zfile("m.py/", nil)
		d.attrs = 0o40755<<16 | 0x10
		es = append(es, d)
	}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es})
	nd.Assert(err == nil, "installing a good wheel fails")
	nd.Assert(len(seen) == want, "something other than the Python sources is compiled")
	os := read(l)
	for _, w := range names {
		have := false
		for _, s := range seen {
			have = have || s == w
		}
		nd.Assert(have, "a Python source is not compiled")
		i := find(os, w+"c")
		nd.Assert(i >= 0 && string(os[i].body) == "compiled", "a compiled file is not installed")
	}
	nd.Reach("end")
}

func same(a, b []out) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		x, y := a[i], b[i]
		ok = ok && x.name == y.name && x.h.Typeflag == y.h.Typeflag && x.h.Mode == y.h.Mode && x.h.ModTime.Equal(y.h.ModTime) && string(x.body) == string(y.body)
	}
	return ok
}

// PlaceOrder: what an installation gives does not depend on map iteration order.
func PlaceOrder() {
	es := []zent{wheelFile("true")}
	p := plat()
	if nd.Flip() {
		p.Scheme.PlatLib = p.Scheme.PureLib
	}
	n := 2 + nd.Choose(nd.Q(2, 3))
	for i := 0; i < n; i++ {
		name := lower('b')
		switch nd.Choose(5) {
		case 0:
			name = data + "/purelib/" + name
		case 1:
			name = data + "/platlib/" + name
		case 2:
			name = data + "/scripts/" + name
		case 3:
			name = data + "/purelib/" + data + "/scripts/" + name
		}
		for _, o := range es {
			nd.Assume(o.name != name)
		}
		es = append(es, zfile(name, []byte{byte('0' + i)}))
	}
	es = append(es, record(es))
	var runs [2][]out
	var fail [2]bool
	for i := range runs {
		nd.SymMapMode(4 * i)
		l, err := install(req{plat: p, es: es})
		fail[i] = err != nil
		if err == nil {
			runs[i] = read(l)
		}
	}
	nd.SymMapMode(0)
	nd.Assert(fail[0] == fail[1], "whether a wheel installs depends on map order")
	nd.Assert(same(runs[0], runs[1]), "the installed files depend on map order")
	if !fail[0] {
		files := 0
		for _, o := range runs[0] {
			if o.h.Typeflag == tar.TypeReg {
				files++
			}
		}
		nd.Assert(files == n+1, "a file of the archive is lost")
		nd.Reach("installed")
	}
	nd.Reach("end")
}

// PlaceInfo: every metadata file but RECORD and its signatures is kept.
func PlaceInfo() {
	es := []zent{wheelFile("true")}
	k := nd.Choose(nd.Q(3, 4))
	var names []string
	for i := 0; i < k; i++ {
		n := nd.Pick("REQUESTED", "INSTALLER", "METADATA", "LICENSE", "top_level.txt", "entry_points.txt", "direct_url.json", "RECORD.old", "sub/RECORD", "sub/RECORD.jws", "RECORD.jws", "RECORD.p7s")
		if i == 2 {
			n = nd.From(2, "abc")
		}
		for _, o := range names {
			nd.Assume(o != n)
		}
		names = append(names, n)
		es = append(es, zfile(info+"/"+n, nd.Bytes(1)))
	}
	es = append(es, record(es))
	l, err := install(req{plat: plat(), es: es})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	reg := 0
	for i, n := range names {
		if n == "RECORD.jws" || n == "RECORD.p7s" {
			continue
		}
		reg++
		j := find(os, "lib/pure/"+info+"/"+n)
		nd.Assert(j >= 0, "a metadata file is not installed")
		nd.Assert(string(os[j].body) == string(es[i+1].body), "a metadata file does not have its content")
	}
	checkDirs(os)
	for _, o := range os {
		if o.h.Typeflag == tar.TypeReg {
			reg--
		}
	}
	nd.Assert(reg == -1, "there are extra files")
	nd.Reach("end")
}
