package main

import (
	"encoding/base64"
	"os"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"sigs.k8s.io/yaml"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// zzPython stands in for an interpreter that answers with the file next to it,
// and for docker.
const zzPython = `#!/bin/sh
n=; [ "$1" = image ] || n=run
{ printf '%s ' "${0##*/}"; for a; do case "$a" in *import*) echo; break;; esac; printf '%s ' "$a"; done; [ -n "$n" ] || echo; } >>"${0%/*}/log"
[ "$1 $2" = "image load" ] && { /bin/cat >/dev/null; exit 0; }
[ "$1 $2" = "image rm" ] && exit 0
/bin/cat "$0.json"
[ ! -e "$0.fail" ]
`

func zzProc(path string, args, env []string, in []byte) (stdout, stderr []byte, code int) {
	i := strings.LastIndexByte(path, '/')
	line := path[i+1:] + " "
	for _, a := range args[1:] {
		if strings.Contains(a, "import") {
			break
		}
		line += a + " "
	}
	old, err := os.ReadFile(path[:i] + "/log")
	if err != nil {
		old = nil
	}
	zzMust(os.WriteFile(path[:i]+"/log", append(old, line+"\n"...), 0o644))
	if len(args) > 2 && args[1] == "image" && (args[2] == "load" || args[2] == "rm") {
		return nil, nil, 0
	}
	out, err := os.ReadFile(path + ".json")
	if err != nil {
		return nil, nil, 1
	}
	if _, err := os.Stat(path + ".fail"); err == nil {
		code = 1
	}
	return out, nil, code
}

func zzProg(p, json string) {
	zzMust(os.WriteFile(p, []byte(zzPython), 0o755))
	zzMust(os.Chmod(p, 0o755))
	zzMust(os.WriteFile(p+".json", []byte(json), 0o644))
}

type zzInfo struct {
	magic, tag1, tag2, level string
	v                        [4]int
	vs                       [4]string
	pure, plat, hdr, scr, dt string
}

func (z zzInfo) json() string {
	return `{"MagicNumberB64": "` + z.magic + `", "Tags": ["` + z.tag1 + `", "` + z.tag2 + `"], "VersionInfo": {"major": ` + z.vs[0] + `, "minor": ` + z.vs[1] + `, "micro": ` + z.vs[2] +
		`, "releaselevel": "` + z.level + `", "serial": ` + z.vs[3] + `}, "Scheme": {"platlib": "` + z.plat + `", "purelib": "` + z.pure + `", "headers": "` + z.hdr + `", "scripts": "` + z.scr + `", "data": "` + z.dt + `"}}`
}

func zzFixed(root string) zzInfo {
	return zzInfo{magic: "YQ0NCg==", tag1: "cp39-cp39-any", tag2: "py3-none-any", level: "final", v: [4]int{3, 9, 1, 0}, vs: [4]string{"3", "9", "1", "0"},
		pure: root + "/pure", plat: root + "/plat", hdr: root + "/hdr", scr: root + "/scr", dt: root + "/dt"}
}

type zzPlat struct {
	python.Platform
	PyCompile []string
}

// zzPlatOf reads what the command printed the way "layer wheel" reads it.
func zzPlatOf(fn string) zzPlat {
	b, err := os.ReadFile(fn)
	zzMust(err)
	nd.Assert(len(b) > 0, "nothing is printed")
	var p zzPlat
	err = yaml.Unmarshal(b, &p, yaml.DisallowUnknownFields)
	nd.Assert(err == nil, "the output is not a platform file")
	return p
}

func zzDescribes(p zzPlat, z zzInfo) {
	nd.Assert(p.Scheme.PureLib == z.pure && p.Scheme.PlatLib == z.plat && p.Scheme.Headers == z.hdr && p.Scheme.Scripts == z.scr && p.Scheme.Data == z.dt, "the install locations are not the interpreter's")
	nd.Assert(p.VersionInfo != nil, "the version is missing")
	nd.Assert(p.VersionInfo.Major == z.v[0] && p.VersionInfo.Minor == z.v[1] && p.VersionInfo.Micro == z.v[2] && p.VersionInfo.Serial == z.v[3] && p.VersionInfo.ReleaseLevel == z.level, "the version is not the interpreter's")
	m, err := base64.StdEncoding.DecodeString(z.magic)
	nd.Assert(err == nil && string(m) == string(p.MagicNumber), "the magic number is not the interpreter's")
	nd.Assert(len(p.Tags) == 2 && p.Tags[0].String() == z.tag1 && p.Tags[1].String() == z.tag2, "the tags are not the interpreter's")
}

func zzNothing(fn string, err error) {
	b, rerr := os.ReadFile(fn)
	nd.Assert(err != nil, "an environment that cannot be described is described")
	nd.Assert(rerr == nil && len(b) == 0, "something is printed although it fails")
	nd.Reach("error")
}

// SymInspect: the host's interpreter.
func SymInspect() {
	d := zzScratch()
	defer os.RemoveAll(d)
	zzMust(os.Mkdir(d+"/b", 0o755))
	zzMust(os.Setenv("PATH", d+"/b"))
	execw.Proc = zzProc
	z := zzFixed(d)
	dirs := []string{z.pure, z.plat, z.hdr, z.scr, z.dt}
	owner := 0
	bad := false
	fault := 0
	name := "python3"
	console, graphical := name, name
	switch focus := nd.Choose(7); focus {
	case 0: // the owner
		owner = -1
		for i, p := range dirs {
			switch nd.Choose(4) {
			case 0:
			case 1:
				zzMust(os.Mkdir(p, 0o755))
				zzMust(os.Lchown(p, 1, 2))
				if owner < 0 {
					owner = 1
				}
			case 2:
				zzMust(os.Mkdir(p, 0o755))
				zzMust(os.Lchown(p, 0, 1))
				if owner < 0 {
					owner = 0
				}
			case 3: // of an owner that has no name
				zzMust(os.Mkdir(p, 0o755))
				if i == 0 && nd.Flip() {
					zzMust(os.Lchown(p, 1, 54321)) // or in a group that has none
				} else {
					zzMust(os.Lchown(p, 54321, 1))
				}
			}
		}
		bad = owner < 0
	case 1: // the version
		for i := range z.v {
			z.vs[i], z.v[i] = zzDigit('0')
		}
		z.level = nd.Pick("alpha", "beta", "candidate", "final")
	case 2: // tags
		z.tag1 = "cp3" + nd.From(1, "0789") + "-" + nd.From(1, "ab_") + "-any"
		z.tag2 = "py" + nd.From(1, "23") + "-none-any"
		if nd.Flip() {
			z.tag1 = nd.From(3, "a-.")
			n := strings.Count(z.tag1, "-")
			bad = n != 2
		}
	case 3: // magic number
		z.magic = nd.From(4, "Aab+/=!")
		_, err := base64.StdEncoding.DecodeString(z.magic)
		bad = err != nil
	case 4: // which interpreter
		have := func(n string) {
			zzProg(d+"/b/"+n, z.json())
		}
		switch nd.Choose(4) {
		case 0:
			have("python3")
		case 1:
			have("python3")
			have("pythonw3")
			graphical = "pythonw3"
		case 2:
			have("python3")
			have("pythonw3")
			name = "pythonw3"
			graphical = "pythonw3"
		case 3:
			have("other")
			have("pythonw3")
			name, console, graphical = "other", "other", "other"
		}
	case 6: // behind a link
		zzMust(os.Mkdir(d+"/real", 0o755))
		zzMust(os.Lchown(d+"/real", 1, 2))
		zzMust(os.Symlink(nd.Pick("real", d+"/real"), dirs[nd.Choose(5)]))
		owner = 1
	case 5:
		fault = 1 + nd.Choose(4)
		bad = true
	}
	if owner == 0 && len(zzExisting(dirs)) == 0 {
		zzMust(os.Mkdir(z.hdr, 0o755))
		zzMust(os.Lchown(z.hdr, 0, 1))
	}
	if _, err := os.Stat(d + "/b/" + console); err != nil {
		zzProg(d+"/b/"+console, z.json())
	}
	if console != "other" && nd.Flip() {
		name = d + "/b/" + name
	}
	switch fault {
	case 1:
		zzMust(os.WriteFile(d+"/b/"+console+".fail", nil, 0o644))
	case 2:
		zzProg(d+"/b/"+console, nd.Pick("", "{", z.json()+"}", strings.Replace(z.json(), "3,", "\"3\",", 1)))
	case 3:
		zzMust(os.Chmod(d+"/b/"+console, 0o644))
	case 4:
		name = "nosuch"
	}
	err := zzExec(d+"/out", "python", "inspect", "--interpreter="+name)
	if bad {
		zzNothing(d+"/out", err)
		return
	}
	nd.Assert(err == nil, "inspecting a good interpreter fails")
	p := zzPlatOf(d + "/out")
	nd.Assert(p.ConsoleShebang == d+"/b/"+console && p.GraphicalShebang == d+"/b/"+graphical, "the interpreter lines do not name the interpreter")
	zzDescribes(p, z)
	if owner == 1 {
		nd.Assert(p.UID == 1 && p.GID == 2 && p.UName == "daemon" && p.GName == "bin", "the owner is not that of the first existing install location")
	} else {
		nd.Assert(p.UID == 0 && p.GID == 1 && p.UName == "root" && p.GName == "daemon", "the owner is not that of the first existing install location")
	}
	nd.Assert(zzSame(p.PyCompile, []string{d + "/b/" + console, "-m", "compileall"}), "the compile command does not use the interpreter")
	l, err := os.ReadFile(d + "/b/log")
	nd.Assert(err == nil && string(l) == console+" -c \n", "another program is asked")
	nd.Reach("described")
}

func zzExisting(ps []string) []string {
	var r []string
	for _, p := range ps {
		if _, err := os.Stat(p); err == nil {
			r = append(r, p)
		}
	}
	return r
}

// SymInspectImage: an image's interpreter, and the host's with the same magic number.
func SymInspectImage() {
	d := zzScratch()
	defer os.RemoveAll(d)
	zzMust(os.Mkdir(d+"/b", 0o755))
	zzMust(os.Setenv("PATH", d+"/b"))
	execw.Proc = zzProc
	z := zzFixed("/srv")
	z.vs[1], z.v[1] = "7", 7
	z.vs[0], z.v[0] = "2", 2
	_, uid := zzDigit('0')
	uname := nd.From(1, "ab")
	es := []layh.Ent{
		{Name: "opt/python2", Kind: '0', Mode: 0o755, Body: []byte("x")},
		{Name: "srv/scr", Kind: '5', Mode: 0o755, UID: uid, GID: 9, Uname: uname, Time: 5},
	}
	bad := false
	if nd.Choose(4) == 0 {
		es[nd.Choose(2)].Name = "other"
		bad = true
	}
	zzImageFile(d+"/img", ociv1.Config{Env: []string{"PATH=/bin:/opt"}}, es...)
	zzProg(d+"/b/docker", z.json())
	if nd.Choose(6) == 0 {
		zzMust(os.WriteFile(d+"/b/docker.fail", nil, 0o644))
		bad = true
	}
	host := ""
	asked := []string{}
	for _, n := range []string{"python2.7", "python2", "python"} {
		y := zzFixed("/host")
		k := nd.Choose(5)
		if k != 0 && host == "" {
			asked = append(asked, n)
		}
		switch k {
		case 0: // none
			continue
		case 1: // one of the same magic number
			y.v[1], y.vs[1] = 4, "4"
			if host == "" {
				host = n
			}
		case 2:
			y.magic = "YQ0NDQ=="
		case 3:
			y.magic = "!"
		}
		zzProg(d+"/b/"+n, y.json())
		if k == 4 {
			zzMust(os.WriteFile(d+"/b/"+n+".fail", nil, 0o644))
		}
	}
	err := zzExec(d+"/out", "python", "inspect", "--imagefile="+d+"/img", "--interpreter=python2")
	l, rerr := os.ReadFile(d + "/b/log")
	if rerr != nil {
		l = nil
	}
	lines := strings.Split(string(l), "\n")
	if host == "" || bad {
		zzNothing(d+"/out", err)
		nd.Assert(strings.Count(string(l), "docker image load") == strings.Count(string(l), "docker image rm"), "the image is left loaded")
		return
	}
	nd.Assert(err == nil, "inspecting a good image fails")
	p := zzPlatOf(d + "/out")
	nd.Assert(p.ConsoleShebang == "/opt/python2" && p.GraphicalShebang == "/opt/python2", "the interpreter lines do not name the interpreter")
	zzDescribes(p, z)
	nd.Assert(p.UID == uid && p.GID == 9 && p.UName == uname && p.GName == "", "the owner is not that of the first existing install location")
	nd.Assert(zzSame(p.PyCompile, []string{d + "/b/" + host, "-m", "compileall"}), "the compile command is not the host's first interpreter with the same magic number")
	nd.Assert(len(lines) == 4+len(asked) && strings.HasPrefix(lines[0], "docker image load"), "the image is not loaded, used and removed")
	nd.Assert(strings.HasPrefix(lines[1], "docker run --rm --entrypoint=/opt/python2 ocibuild.local/") && strings.HasSuffix(lines[1], " -c "), "the image's interpreter is not run in the image")
	tag := strings.Split(lines[1], " ")[4]
	nd.Assert(lines[2] == "docker image rm "+tag+" ", "the image is not removed")
	for i, a := range asked {
		nd.Assert(lines[3+i] == a+" -c ", "another program is asked")
	}
	nd.Reach("described")
}
