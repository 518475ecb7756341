package whlh

import (
	"archive/tar"
	"path"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// contained checks that a layer stays within the install directories.
func contained(os []out, dirs []string) {
	for _, o := range os {
		nd.Assert(o.name != "" && path.Clean(o.name) == o.name, "an entry does not have a clean name")
		nd.Assert(!strings.HasPrefix(o.name, "/"), "an entry is absolute")
		nd.Assert(o.name != ".." && !strings.HasPrefix(o.name, "../"), "an entry climbs out of the layer")
		nd.Assert(count(os, o.name) == 1, "a path is present twice")
		ok := false
		for _, d := range dirs {
			if d == "" && o.name != "." || within(d, o.name) {
				ok = true // below an install directory
			}
			if o.h.Typeflag == tar.TypeDir && (o.name == d || within(o.name, d)) {
				ok = true // an install directory or a parent of one
			}
		}
		nd.Assert(ok, "an entry is outside the install directories")
	}
}

// Escape: any archive names.
func Escape() {
	p := plat()
	dirs := []string{"lib/pure", "lib/plat", "inc", "bin", "usr"}
	es := []zent{wheelFile("true")}
	name := nd.From(1+nd.Choose(nd.Q(5, 6)), "./a")
	switch nd.Choose(5) {
	case 1:
		name = data + "/" + name
	case 2:
		name = data + "/scripts" + name
	case 3:
		name = data + "/" + nd.Pick("purelib", "data") + "/" + name
	case 4:
		name = nd.Pick("../", "../../", "../../../x", "/../../", "./../..//", "a/../../") + name[1:] + ".py"
	}
	es = append(es, zfile(name, nd.Bytes(0)))
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es})
	if err == nil {
		os := read(l)
		contained(os, dirs)
		nd.Observe("layer", dump(os))
		nd.Reach("installed")
	} else {
		nd.Reach("refused")
	}
	nd.Reach("end")
}

// EscapeScheme: odd but absolute scheme directories.
func EscapeScheme() {
	p := plat()
	odd := func() (string, string) {
		s := nd.Pick("/lib", "//lib", "/lib/", "/lib/../x", "/../x", "/", "//", "/./x", "/a//b")
		return s, strings.TrimPrefix(path.Clean(s), "/")
	}
	var dirs []string
	var d string
	switch nd.Choose(2) {
	case 0:
		p.Scheme.PureLib, d = odd()
		dirs = []string{d, "bin"}
	case 1:
		p.Scheme.Scripts, d = odd()
		dirs = []string{"lib/pure", d}
	}
	es := []zent{wheelFile("true"), zfile("m/n", nd.Bytes(1)), zfile(data+"/scripts/s", []byte("#!python\n"))}
	if nd.Flip() {
		es = append(es, zent{name: data + "/scripts/", creator: 3, attrs: 0o40755 << 16})
	}
	if nd.Flip() {
		es = append(es, zfile(info+"/entry_points.txt", []byte("[console_scripts]\nx=a:b\n")))
	}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
	nd.Assert(err == nil, "installing into an absolute install directory fails")
	os := read(l)
	contained(os, dirs)
	nd.Observe("layer", dump(os))
	nd.Reach("end")
}

// EscapeScripts: any entry point name.
func EscapeScripts() {
	p := plat()
	name := nd.From(1+nd.Choose(nd.Q(3, 4)), "./a")
	sect := nd.Pick("console_scripts", "gui_scripts")
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte("["+sect+"]\n"+name+" = m:f\n"))}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
	if err == nil {
		os := read(l)
		contained(os, []string{"lib/pure", "bin"})
		n := 0
		for _, o := range os {
			if within("bin", o.name) {
				n++
			}
		}
		nd.Assert(n == 1, "an entry point has no script in the scripts directory")
		nd.Reach("installed")
	} else {
		nd.Reach("refused")
	}
	nd.Reach("end")
}
