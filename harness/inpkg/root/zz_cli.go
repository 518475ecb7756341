package main

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
	"github.com/datawire/ocibuild/zz_verif/pyh"
	"github.com/datawire/ocibuild/zz_verif/whlh"
)

// zzCLI runs the program; natively that is this very executable in a process of
// its own.
func zzCLI(d, out string, args ...string) (code int, stdout, stderr string) {
	if out == "" {
		out = d + "/out"
	}
	f, err := os.OpenFile(out, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
	zzMust(err)
	if nd.SymNative() {
		self, err := os.Executable()
		zzMust(err)
		var e bytes.Buffer
		cmd := exec.Command(self, args...)
		cmd.Stdout, cmd.Stderr = f, &e
		err = cmd.Run()
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else {
			zzMust(err)
		}
		stderr = e.String()
	} else {
		e, err := os.Create(d + "/err")
		zzMust(err)
		so, se := os.Stdout, os.Stderr
		os.Stdout, os.Stderr = f, e
		os.Args = append([]string{"ocibuild"}, args...)
		code = zzExit()
		os.Stdout, os.Stderr = so, se
		zzMust(e.Close())
		b, err := os.ReadFile(d + "/err")
		zzMust(err)
		stderr = string(b)
	}
	zzMust(f.Close())
	if out == "/dev/full" {
		return code, "", stderr
	}
	b, err := os.ReadFile(out)
	zzMust(err)
	return code, string(b), stderr
}

func zzExit() (code int) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(execw.Exit)
			if !ok {
				panic(r)
			}
			code = int(x)
		}
	}()
	main()
	return 0
}

var zzGroups = map[string][]string{"": {"image", "layer", "python", "help"}, "image": {"build"}, "layer": {"dir", "gobuild", "squash", "wheel"}, "python": {"getwheel", "inspect"}}

// SymUsage: wrong usage.
func SymUsage() {
	d := zzScratch()
	defer os.RemoveAll(d)
	zzLayerFile(d+"/l", zzEnt("a", 'x'))
	l := d + "/l"
	zzMust(os.Mkdir(d+"/b", 0o755))
	layh.GoTool(d, []byte("x"), "1000") // never to be run
	pyh.Tool(d + "/tool")
	path := "ocibuild"
	var args []string
	help := false
	switch nd.Choose(4) {
	case 0: // a group alone
		g := nd.Pick("", "image", "layer", "python")
		if g != "" {
			args = []string{g}
			path += " " + g
		}
		help = true
	case 1: // a subcommand that does not exist
		g := nd.Pick("", "image", "layer", "python")
		x := nd.From(1+nd.Choose(nd.Q(3, 4)), "dirqe")
		for _, c := range zzGroups[g] {
			nd.Assume(x != c)
		}
		if g != "" {
			args = []string{g}
			path += " " + g
		}
		args = append(args, x)
		if nd.Flip() {
			args = append(args, l)
		}
	case 2: // a flag that does not exist, or a value it cannot have
		k := nd.Choose(9)
		args = [][]string{{"image", "build", l}, {"layer", "dir", d}, {"layer", "gobuild", "./x"}, {"layer", "squash", l, l}, {"layer", "wheel", l}, {"python", "getwheel", l}, {"python", "inspect"}, {"layer"}, {}}[k]
		if k < 7 {
			path += " " + args[0] + " " + args[1]
		} else if k == 7 {
			path += " " + args[0]
		}
		x := "--" + nd.From(2, "qzj")
		if nd.Flip() {
			x += "=1"
		}
		if k == 1 && nd.Flip() {
			x = "--" + nd.Pick("prefix-uid", "chown-gid") + "=" + nd.Pick("x", "-", ".", "1x", "")
		}
		args = append(append([]string{}, args...), x)
	case 3: // too few or too many arguments
		k := nd.Choose(9)
		args = [][]string{{"image", "build"}, {"layer", "dir"}, {"layer", "dir", d, d}, {"layer", "gobuild"}, {"layer", "squash", l}, {"layer", "wheel", "--platform-file=x"}, {"layer", "wheel", "--platform-file=x", l, l}, {"python", "getwheel"}, {"python", "inspect", l}}[k]
		path += " " + args[0] + " " + args[1]
	}
	code, out, errs := zzCLI(d, "", args...)
	nd.Assert(code == 2, "wrong usage does not give exit status 2")
	nd.Assert(out == "", "wrong usage prints something on the standard output")
	if help {
		nd.Assert(strings.HasPrefix(errs, "Usage: "), "a command group alone does not explain itself")
	} else {
		nd.Assert(strings.HasPrefix(errs, path+": "), "wrong usage is not reported by the command concerned")
		nd.Assert(strings.HasSuffix(errs, "\nSee '"+path+" --help' for more information.\n"), "wrong usage does not point to the help text")
	}
	_, e1 := os.Stat(d + "/go.args")
	_, e2 := os.Stat(d + "/tool.args")
	nd.Assert(e1 != nil && e2 != nil, "wrong usage runs a program")
	nd.Reach("usage")
}

// SymStatus: the exit status tells whether the output was written.
func SymStatus() {
	d := zzScratch()
	defer os.RemoveAll(d)
	zzLayerFile(d+"/l", zzEnt("a", nd.Byte()))
	zzLayerFile(d+"/m", zzEnt("b", nd.Byte()))
	zzMust(os.Mkdir(d+"/in", 0o755))
	zzMust(os.WriteFile(d+"/in/f", nd.Bytes(1), 0o644))
	os.Setenv("SOURCE_DATE_EPOCH", "900")
	var args []string
	switch nd.Choose(7) {
	case 0:
		args = []string{"layer", "squash", d + "/l", d + "/m"}
	case 1:
		args = []string{"layer", "dir", d + "/in"}
	case 2:
		layh.GoTool(d, nd.Bytes(1), "1000")
		args = []string{"layer", "gobuild", "./cmd/a"}
	case 3:
		pyh.Tool(d + "/tool")
		zzMust(os.WriteFile(d+"/p", []byte(`{"ConsoleShebang": "/p", "Scheme": {"purelib": "/l", "platlib": "/l", "headers": "/i", "scripts": "/b", "data": "/u"}, "PyCompile": ["`+d+`/tool", "-m"]}`+"\n"), 0o644))
		args = []string{"layer", "wheel", "--platform-file=" + d + "/p", whlh.SimpleWheel(d, []byte("xy"), false)}
	case 4:
		args = []string{"image", "build", d + "/l", d + "/m"}
	case 5:
		zzImageFile(d+"/i", ociv1.Config{}, zzEnt("a", nd.Byte()))
		args = []string{"image", "build", "-t", "aa:b", "--base", d + "/i", d + "/l"}
	case 6:
		zzMust(os.Mkdir(d+"/b", 0o755))
		zzMust(os.Setenv("PATH", d+"/b"))
		z := zzFixed(d + "/b")
		z.pure = d + "/b"
		zzMust(os.Lchown(d+"/b", 0, 0))
		zzProg(d+"/b/python3", z.json())
		execw.Proc = zzProc
		args = []string{"python", "inspect"}
	}
	out := ""
	what := nd.Choose(3)
	switch what {
	case 1:
		out = "/dev/full"
	case 2:
		if args[0] == "python" {
			args = append(args, "--interpreter="+d+"/nosuch")
		} else if args[1] == "gobuild" {
			args[2] = "./bad"
		} else {
			args[len(args)-1] = d + "/nosuch"
		}
	}
	code, o, errs := zzCLI(d, out, args...)
	if what == 0 {
		nd.Assert(code == 0, "a command that does its work does not give exit status 0")
		nd.Assert(len(o) > 0, "nothing is written")
		nd.Reach("ok")
		return
	}
	nd.Assert(code == 1, "a failure does not give exit status 1")
	nd.Assert(strings.Contains(errs, "ocibuild: error: "), "a failure is not explained")
	nd.Assert(what == 1 || o == "", "something is written although the command fails")
	nd.Reach("failed")
}
