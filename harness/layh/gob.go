package layh

import (
	"archive/tar"
	"context"
	"errors"
	"os"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/gobuild"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// goTool stands in for the go command: it builds each package to a file with
// the content and time the harness left beside it.
const goTool = `#!/bin/bash
printf '%s\n' "$@" >"$0.args"
printf '%s/%s/%s\n' "$GOOS" "$GOARCH" "$GOFLAGS" >"$0.env"
out= pk=
while [ $# -gt 0 ]; do
	case "$1" in
	-o) out="$2"; shift ;;
	--) pk=1 ;;
	*) if [ "$pk" ]; then
		cp "$0.body" "$out/$(basename -- "$1")"; chmod 755 "$out/$(basename -- "$1")"; touch -d "@$(cat "$0.time")" "$out/$(basename -- "$1")"
		[ "$1" = ./bad ] && exit 1
	fi ;;
	esac
	shift
done
exit 0
`

func goHook(path string, args, env []string) error {
	try(os.WriteFile(path+".args", []byte(strings.Join(args[1:], "\n")+"\n"), 0o644))
	try(os.WriteFile(path+".env", []byte(execw.Env(env, "GOOS")+"/"+execw.Env(env, "GOARCH")+"/"+execw.Env(env, "GOFLAGS")+"\n"), 0o644))
	body, err := os.ReadFile(path + ".body")
	try(err)
	tm, err := os.ReadFile(path + ".time")
	try(err)
	sec := int64(0)
	for _, c := range tm {
		sec = sec*10 + int64(c-'0')
	}
	out, pk := "", false
	for i := 1; i < len(args); i++ {
		switch {
		case args[i] == "-o":
			i++
			out = args[i]
		case args[i] == "--":
			pk = true
		case pk:
			f := out + "/" + base(args[i])
			try(os.WriteFile(f, body, 0o755))
			try(os.Chmod(f, 0o755))
			try(os.Chtimes(f, time.Unix(sec, 0), time.Unix(sec, 0)))
			if args[i] == "./bad" {
				return errors.New("exit status 1")
			}
		}
	}
	return nil
}

// GoTool installs the stand-in in dir and puts it on the PATH.
func GoTool(dir string, body []byte, tm string) {
	execw.Hook = goHook
	try(os.WriteFile(dir+"/go", []byte(goTool), 0o755))
	try(os.Chmod(dir+"/go", 0o755))
	try(os.WriteFile(dir+"/go.body", body, 0o644))
	try(os.WriteFile(dir+"/go.time", []byte(tm), 0o644))
	os.Setenv("PATH", dir+":/usr/bin:/bin")
}

// GoBuild: the layer of built binaries.
func GoBuild() {
	d, err := os.MkdirTemp("", "zz")
	try(err)
	defer os.RemoveAll(d)
	var body []byte
	if k := nd.Choose(4); k == 3 {
		body = nd.Big(33001)
	} else {
		body = nd.Bytes(k)
	}
	late := nd.Flip()
	tm, sec := "1000", int64(1000)
	if late {
		tm, sec = "1700000000", 1700000000
	}
	GoTool(d, body, tm)
	os.Setenv("GOOS", nd.Pick("", "windows"))
	os.Setenv("GOARCH", nd.Pick("arm64", ""))
	os.Setenv("GOFLAGS", "-x")
	clamp := []int64{1600000000, 500}[nd.Choose(2)]
	pkgs := [][]string{{"./cmd/a"}, {"./cmd/b", "example.com/c/a"}, {"./bad"}, {"-mod"}}[nd.Choose(4)]
	l, err := gobuild.LayerFromGo(context.Background(), time.Unix(clamp, 0), pkgs)
	a, rerr := os.ReadFile(d + "/go.args")
	nd.Assert(rerr == nil, "go is not run")
	args := strings.Split(strings.TrimSuffix(string(a), "\n"), "\n")
	nd.Assert(len(args) > 0 && args[0] == "build", "go is not asked to build")
	trim, out, dd := false, "", -1
	for i := 1; i < len(args) && dd < 0; i++ {
		switch args[i] {
		case "-trimpath":
			trim = true
		case "-o":
			i++
			out = args[i]
		case "--":
			dd = i
		}
	}
	nd.Assert(trim, "the build depends on the directory it is done in")
	nd.Assert(dd >= 0 && len(args)-dd-1 == len(pkgs), "go is not given exactly the packages")
	for i, p := range pkgs {
		nd.Assert(args[dd+1+i] == p, "go is not given exactly the packages")
	}
	e, _ := os.ReadFile(d + "/go.env")
	nd.Assert(string(e) == "linux/amd64/-x\n", "go is not run for the target platform with the caller's flags")
	_, serr := os.Stat(out)
	nd.Assert(serr != nil, "the scratch directory is left behind")
	if pkgs[0] == "./bad" {
		nd.Assert(err != nil, "a failed build is not reported")
		nd.Reach("failed")
		return
	}
	nd.Assert(err == nil, "making the layer fails")
	es := RdLayer(l)
	nd.Assert(len(es) == 3+len(pkgs), "the layer does not have exactly the binaries and their parent directories")
	want := sec
	if want > clamp {
		want = clamp
	}
	for i, p := range []string{"usr", "usr/local", "usr/local/bin"} {
		nd.Assert(clean(es[i].Name) == p && es[i].Kind == tar.TypeDir && es[i].Mode == 0o755, "a parent directory is missing or has another mode")
	}
	for _, x := range es {
		nd.Assert(x.UID == 0 && x.GID == 0 && x.Uname == "root", "an entry is not owned by root")
		nd.Assert(x.Time <= clamp, "a timestamp is later than the clamp time")
	}
	for _, p := range pkgs {
		n := 0
		for _, x := range es {
			if x.Name == "usr/local/bin/"+base(p) {
				n++
				nd.Assert(x.Kind == tar.TypeReg && x.Mode&0o777 == 0o755 && string(x.Body) == string(body) && x.Time == want, "a binary has another type, mode, content or time")
			}
		}
		nd.Assert(n == 1, "a binary is missing")
	}
	nd.Reach("layer")
}

// CtxBuild: go is not started for a cancelled call, and nothing comes of it.
func CtxBuild() {
	d, err := os.MkdirTemp("", "zz")
	try(err)
	defer os.RemoveAll(d)
	GoTool(d, nd.Bytes(1), "1000")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cut := nd.Byte() < 128
	if nd.SymBranch(cut) {
		cancel()
	}
	temps := execw.TempFiles()
	l, err := gobuild.LayerFromGo(ctx, time.Unix(500, 0), []string{nd.Pick("./a", "./b")})
	nd.Assert((err != nil) == cut, "building succeeds exactly when it is cancelled")
	_, ran := os.Stat(d + "/go.args")
	nd.Assert((ran != nil) == cut, "go is run exactly when the call is cancelled")
	nd.Assert(execw.TempFiles() == temps, "the scratch directory is left behind")
	if err != nil {
		nd.Assert(errors.Is(err, context.Canceled) && l == nil, "a cancelled build yields a layer or another error")
		nd.Reach("cut")
	}
	nd.Reach("end")
}
