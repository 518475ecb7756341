package whlh

import (
	"archive/tar"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// ident is a short identifier.
func ident(n int) string {
	s := nd.From(n, "bcd_7B")
	nd.Assume(s[0] != '7')
	return s
}

// ref is a reference to an object.
type ref struct{ mod, obj string }

func mkref(deep int) ref {
	r := ref{ident(1), ident(1)}
	if deep&1 != 0 {
		r.mod += "." + ident(1)
	}
	if deep&2 != 0 {
		r.obj += "." + ident(1)
	}
	return r
}

// launcher checks one generated script.
func launcher(os []out, name, shebang string, r ref) {
	nd.Assert(count(os, name) == 1, "an entry point does not have exactly one script")
	o := os[find(os, name)]
	nd.Assert(o.h.Typeflag == tar.TypeReg && o.h.Mode&0o777 == 0o755, "a script is not an executable file")
	imp := r.obj
	if i := strings.IndexByte(imp, '.'); i >= 0 {
		imp = imp[:i]
	}
	var imports, calls int
	for i, l := range strings.Split(string(o.body), "\n") {
		if i == 0 {
			nd.Assert(l == "#!"+shebang, "a script does not start with its interpreter line")
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "from ") {
			imports++
			nd.Assert(l == "from "+r.mod+" import "+imp, "a script does not import the referenced object")
		}
		if strings.HasPrefix(l, "sys.exit(") {
			calls++
			nd.Assert(l == "sys.exit("+r.obj+"())", "a script does not call the referenced object")
		}
	}
	nd.Assert(imports == 1 && calls == 1, "a script does not import and call one object")
}

// Launchers: any names and references, in both groups, in both map orders.
func Launchers() {
	p := plat()
	focus := nd.Choose(3) // shebangs; spellings; deep references
	if focus == 0 {
		p.ConsoleShebang, p.GraphicalShebang = nd.From(2, "/ab "), nd.From(1, "/ab")
		nd.Assume(p.ConsoleShebang[0] != ' ')
		p.Scheme.Scripts = "/opt/s"
	}
	bin := p.Scheme.Scripts[1:] + "/"
	type ep struct {
		gui  bool
		name string
		r    ref
	}
	n := 1 + nd.Choose(2)
	eps := make([]ep, n)
	text := map[bool]string{}
	for i := range eps {
		deep := i
		if focus == 2 {
			deep = nd.Choose(4)
		}
		name := string([]byte{byte('x' + i)})
		if focus == 1 {
			name = nd.From(1+i, "xY-.")
			nd.Assume(name != "." && name != "..")
		}
		eps[i] = ep{nd.Flip(), name, mkref(deep)}
		s := "="
		if i == 1 && focus == 1 {
			s = nd.Pick("=", " = ")
		}
		text[eps[i].gui] += eps[i].name + s + eps[i].r.mod + ":" + eps[i].r.obj
		if i == 1 && focus != 0 && nd.Flip() {
			text[eps[i].gui] += " [ex,tra]"
		}
		text[eps[i].gui] += "\n"
	}
	cons, gui := "[console_scripts]\n"+text[false], "[gui_scripts]\n"+text[true]
	txt := "[other]\nzz=not a reference\n" + cons + gui
	if n == 2 && focus == 0 && nd.Flip() {
		txt = gui + cons
	}
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte(txt)), zfile("f", []byte("x"))}
	es = append(es, record(es))
	var runs [2][]out
	for i := range runs {
		if i == 1 && n == 1 {
			continue
		}
		nd.SymMapMode(4 * i)
		l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
		nd.Assert(err == nil, "installing a good wheel fails")
		runs[i] = read(l)
	}
	nd.SymMapMode(0)
	os := runs[0]
	nd.Assert(n == 1 || same(os, runs[1]), "the scripts depend on map order")
	for _, e := range eps {
		sb := p.ConsoleShebang
		if e.gui {
			sb = p.GraphicalShebang
		}
		launcher(os, bin+e.name, sb, e.r)
	}
	k := 0
	for _, o := range os {
		if within(bin[:len(bin)-1], o.name) {
			k++
		}
	}
	nd.Assert(k == n, "there are scripts for no entry point")
	nd.Reach("end")
}

// SameName: one name in both groups gives the same script in both map orders.
func SameName() {
	p := plat()
	a, b := mkref(0), mkref(0)
	txt := "[console_scripts]\nx=" + a.mod + ":" + a.obj + "\n[gui_scripts]\nx=" + b.mod + ":" + b.obj + "\n"
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte(txt))}
	es = append(es, record(es))
	var runs [2][]out
	var errs [2]bool
	for i := range runs {
		nd.SymMapMode(4 * i)
		l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
		errs[i] = err != nil
		if err == nil {
			runs[i] = read(l)
		}
	}
	nd.SymMapMode(0)
	nd.Assert(errs[0] == errs[1] && same(runs[0], runs[1]), "the scripts depend on map order")
	if !errs[0] {
		i := find(runs[0], "bin/x")
		nd.Assert(i >= 0, "an entry point does not have exactly one script")
		if strings.HasPrefix(string(runs[0][i].body), "#!"+p.GraphicalShebang) {
			launcher(runs[0], "bin/x", p.GraphicalShebang, b)
		} else {
			launcher(runs[0], "bin/x", p.ConsoleShebang, a)
		}
	}
	nd.Reach("end")
}

// goodRef parses an object reference by hand.
func goodRef(s string) (ref, bool) {
	// optional extras
	i := 0
	cols := 0
	col := 0
	word := false
	for i < len(s) {
		c := s[i]
		if nd.SymBranch(c == 'a' || c == 'Z' || c == '_' || c == '0') {
			word = true
			i++
			continue
		}
		if word && nd.SymBranch(c == ':' || c == '.') {
			if nd.SymBranch(c == ':') {
				cols++
				col = i
			}
			word = false
			i++
			continue
		}
		break
	}
	if !word || cols != 1 {
		return ref{}, false
	}
	end := i
	for i < len(s) && nd.SymBranch(s[i] == ' ') {
		i++
	}
	if i < len(s) {
		if !nd.SymBranch(s[i] == '[') || !nd.SymBranch(s[len(s)-1] == ']') || len(s)-1 == i {
			return ref{}, false
		}
	} else if end != i {
		return ref{}, false
	}
	return ref{s[:col], s[col+1 : end]}, true
}

// BadRefs: any short value; it is refused unless it is a reference.
func BadRefs() {
	p := plat()
	v := nd.From(1+nd.Choose(nd.Q(5, 6)), "aZ:.[] -")
	if nd.Flip() {
		v = "a:" + v
	}
	nd.Assume(v[0] != ' ' && v[len(v)-1] != ' ')
	sect := nd.Pick("console_scripts", "gui_scripts")
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte("["+sect+"]\nx="+v+"\n"))}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
	r, ok := goodRef(v)
	nd.Assert((err == nil) == ok, "a reference is refused, or something else is accepted")
	if ok {
		sb := p.ConsoleShebang
		if sect == "gui_scripts" {
			sb = p.GraphicalShebang
		}
		launcher(read(l), "bin/x", sb, r)
		nd.Reach("accepted")
	}
	nd.Reach("end")
}

// BadNames: a script name that is no file name is refused.
func BadNames() {
	p := plat()
	v := nd.From(1+nd.Choose(nd.Q(3, 4)), "./a-")
	sect := nd.Pick("console_scripts", "gui_scripts")
	es := []zent{wheelFile("true"), zfile(info+"/entry_points.txt", []byte("["+sect+"]\n"+v+" = m:f\n"))}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es, hook: entry_points.CreateScripts(p)})
	ok := v != "." && v != ".."
	for i := 0; i < len(v); i++ {
		ok = ok && v[i] != '/'
	}
	nd.Assert((err == nil) == ok, "a script name is refused, or something that is no file name is accepted")
	if err == nil {
		sb := p.ConsoleShebang
		if sect == "gui_scripts" {
			sb = p.GraphicalShebang
		}
		launcher(read(l), "bin/"+v, sb, ref{"m", "f"})
		nd.Reach("accepted")
	}
	nd.Reach("end")
}

// NoEntryPoints: a wheel without scripts is unchanged.
func NoEntryPoints() {
	p := plat()
	es := []zent{wheelFile("true"), zfile("f", nd.Bytes(1)), zfile(data+"/scripts/x", []byte("#!python\n"))}
	switch nd.Choose(3) {
	case 1:
		es = append(es, zfile(info+"/entry_points.txt", []byte("[other]\nx=a:b\n")))
	case 2:
		es = append(es, zfile("entry_points.txt", []byte("[console_scripts]\nx=a:b\n")))
	}
	es = append(es, record(es))
	var runs [2][]out
	for i := range runs {
		r := req{plat: p, es: es}
		if i == 1 {
			r.hook = entry_points.CreateScripts(p)
		}
		l, err := install(r)
		nd.Assert(err == nil, "installing a good wheel fails")
		runs[i] = read(l)
	}
	nd.Assert(same(runs[0], runs[1]), "a wheel without entry points is changed")
	nd.Reach("end")
}

// rewritten says what a script must become.
func rewritten(b string, con, gui string) string {
	const m = "#!python"
	if len(b) < len(m) {
		return b
	}
	for i := 0; i < len(m); i++ {
		if !nd.SymBranch(b[i] == m[i]) {
			return b
		}
	}
	if len(b) > len(m) && nd.SymBranch(b[len(m)] == 'w') {
		return "#!" + gui + b[len(m)+1:]
	}
	return "#!" + con + b[len(m):]
}

// Shebangs: any script contents.
func Shebangs() {
	p := plat()
	p.ConsoleShebang, p.GraphicalShebang = nd.From(1+nd.Choose(2), "/p"), nd.From(1, "/pw")
	var b string
	switch nd.Choose(3) {
	case 0:
		b = nd.Str(nd.Choose(nd.Q(11, 13)))
	case 1:
		b = "#!python" + nd.Str(nd.Choose(nd.Q(5, 8)))
	case 2:
		b = "#!/bin/sh\n#!python" + nd.Str(1)
	}
	es := []zent{wheelFile("true"), zfile(data+"/scripts/x", []byte(b))}
	es[1].attrs = []uint32{0o100644 << 16, 0o100755 << 16, 0}[nd.Choose(3)]
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	i := find(os, "bin/x")
	nd.Assert(i >= 0, "a script is missing")
	w := rewritten(b, p.ConsoleShebang, p.GraphicalShebang)
	nd.Assert(string(os[i].body) == w, "a script has other contents")
	nd.Reach("end")
}

// NonScripts: only scripts are rewritten.
func NonScripts() {
	p := plat()
	b := "#!python" + nd.Str(nd.Choose(3))
	var n, w string
	switch nd.Choose(7) {
	case 0:
		n, w = "x", "lib/pure/x"
	case 1:
		n, w = "scripts/x", "lib/pure/scripts/x"
	case 2:
		n, w = data+"/purelib/x", "lib/pure/x"
	case 3:
		n, w = data+"/platlib/x", "lib/plat/x"
	case 4:
		n, w = data+"/headers/x", "inc/x"
	case 5:
		n, w = data+"/data/x", "usr/x"
	case 6:
		n, w = data+"/data/scripts/x", "usr/scripts/x"
	}
	es := []zent{wheelFile("true"), zfile(n, []byte(b))}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	i := -1
	for j, o := range os {
		if o.h.Typeflag == tar.TypeReg && !strings.Contains(o.name, info) {
			i = j
		}
	}
	nd.Assert(i >= 0 && string(os[i].body) == b, "a file that is no script has other contents")
	nd.Assert(os[i].name == w, "a file is elsewhere")
	nd.Reach("end")
}

// SubScripts: scripts in subdirectories of the scripts directory, and several scripts.
func SubScripts() {
	p := plat()
	b := []string{"#!python" + nd.Str(1), nd.Str(nd.Choose(2)) + "#!python", "#!pythonw" + nd.Str(1)}
	ns := []string{"a", "s/b", "c.py"}
	es := []zent{wheelFile("false")}
	for i := range b {
		es = append(es, zfile(data+"/scripts/"+ns[i], []byte(b[i])))
	}
	es = append(es, record(es))
	l, err := install(req{plat: p, es: es})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	for i := range b {
		j := find(os, "bin/"+ns[i])
		nd.Assert(j >= 0, "a script is missing")
		nd.Assert(string(os[j].body) == rewritten(b[i], p.ConsoleShebang, p.GraphicalShebang), "a script has other contents")
	}
	nd.Reach("end")
}
