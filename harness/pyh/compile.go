package pyh

import (
	"archive/tar"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// tool stands in for "python3 -m compileall": it compiles every .py below the
// directory it is given, and leaves a file that is no product of compiling.
const tool = `#!/bin/bash
printf '%s\n' "$@" >"$0.args"
printf '%s\n%s\n%s\n' "$PYTHONHASHSEED" "${SOURCE_DATE_EPOCH-none}" "$PYTHONPATH" >"$0.env"
cd "${@: -1}" || exit 9
find . -name '*.py' | LC_ALL=C sort | while read -r f; do
	printf '%s %s\n' "${f#./}" "$(stat -c %Y "$f")" >>"$0.src"
	mkdir -p "$(dirname "$f")/__pycache__"
	{ printf C; cat "$f"; } >"$(dirname "$f")/__pycache__/$(basename "$f")c"
done
echo junk >junk.txt
echo junk >junk.pyo
[ "$1" != gone ] || ln -s nothing gone.pyc
[ "$1" != fail ]
`

func must(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

func pyFiles(root, rel string) []string {
	es, err := os.ReadDir(root + rel)
	must(err)
	var r []string
	for _, e := range es {
		if e.IsDir() {
			r = append(r, pyFiles(root, rel+"/"+e.Name())...)
		} else if strings.HasSuffix(e.Name(), ".py") {
			r = append(r, (rel + "/" + e.Name())[1:])
		}
	}
	return r
}

func dirOf(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[:i+1]
	}
	return ""
}

func toolHook(path string, args, env []string) error {
	must(os.WriteFile(path+".args", []byte(strings.Join(args[1:], "\n")+"\n"), 0o644))
	sde := execw.Env(env, "SOURCE_DATE_EPOCH")
	if sde == "" {
		sde = "none"
	}
	must(os.WriteFile(path+".env", []byte(execw.Env(env, "PYTHONHASHSEED")+"\n"+sde+"\n"+execw.Env(env, "PYTHONPATH")+"\n"), 0o644))
	root := args[len(args)-1]
	src := ""
	for _, f := range pyFiles(root, "") {
		st, err := os.Stat(root + "/" + f)
		must(err)
		src += f + " " + strconv.FormatInt(st.ModTime().Unix(), 10) + "\n"
		b, err := os.ReadFile(root + "/" + f)
		must(err)
		must(os.MkdirAll(root+"/"+dirOf(f)+"__pycache__", 0o755))
		must(os.WriteFile(root+"/"+dirOf(f)+"__pycache__/"+f[len(dirOf(f)):]+"c", append([]byte{'C'}, b...), 0o644))
	}
	must(os.WriteFile(path+".src", []byte(src), 0o644))
	must(os.WriteFile(root+"/junk.txt", []byte("junk\n"), 0o644))
	must(os.WriteFile(root+"/junk.pyo", []byte("junk\n"), 0o644))
	if args[1] == "gone" {
		must(os.Symlink("nothing", root+"/gone.pyc"))
	}
	if args[1] == "fail" {
		return errors.New("exit status 1")
	}
	return nil
}

type badRef struct{ fsutil.FileReference }

func (badRef) Open() (io.ReadCloser, error) { return nil, errors.New("broken") }

func readRef(f fsutil.FileReference) []byte {
	r, err := f.Open()
	nd.Assert(err == nil, "a compiled file cannot be opened")
	b, err := io.ReadAll(r)
	nd.Assert(err == nil, "a compiled file cannot be read")
	nd.Assert(r.Close() == nil, "a compiled file cannot be closed")
	return b
}

// Compile: what the compiler sees and what comes back.
func Compile() {
	execw.Hook = toolHook
	d, err := os.MkdirTemp("", "zz")
	must(err)
	defer os.RemoveAll(d)
	must(os.WriteFile(d+"/tool", []byte(tool), 0o755))
	must(os.Chmod(d+"/tool", 0o755))
	names := [][]string{{"lib/a.py"}, {"a.py", "lib/b/c.py"}, {"lib/a.py", "lib/b.py", "lib/c/a.py"}, {}, {".h/__init__.py", "lib/.x.py", "p/__init__.py", "q.d/__init__.py"}}[nd.Choose(5)]
	fault := nd.Choose(4) // 1: the tool fails, 2: a source cannot be opened, 3: no tool
	empty := nd.Choose(3)
	pick := func(n int) int {
		if fault != 0 || empty == 2 {
			return 0
		}
		return nd.Choose(n)
	}
	shift := pick(2)
	var in []fsutil.FileReference
	src := ""
	bodies := map[string][]byte{}
	for i, n := range names {
		var b []byte
		if empty == 2 && i == 0 {
			b = nd.Big(33001)
		} else {
			b = nd.Bytes((i + empty) % 3)
		}
		t := []int64{1577836800, 1, 2000000001}[(i+shift)%3]
		h := &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: int64(len(b)), ModTime: time.Unix(t, 0)}
		var f fsutil.FileReference = &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: n, MContent: b}
		if fault == 2 && i == len(names)-1 {
			f = badRef{f}
		}
		in = append(in, f)
		src += n + " " + strconv.FormatInt(t, 10) + "\n"
		bodies[dirOf(n)+"__pycache__/"+n[len(dirOf(n)):]+"c"] = b
	}
	// the caller's own environment
	inherited := []string{"", "/opt/x"}[pick(2)]
	os.Setenv("PYTHONPATH", inherited)
	os.Setenv("PYTHONHASHSEED", "random")
	os.Unsetenv("SOURCE_DATE_EPOCH")
	pp := [][]string{nil, {"lib"}, {"lib", "usr/lib"}}[pick(3)]
	clamp, sde := time.Time{}, "none"
	switch pick(3) {
	case 1:
		clamp, sde = time.Unix(1600000000, 5), "1600000000"
	case 2:
		clamp, sde = time.Unix(0, 0), "0"
	}
	extra := []string{"-m", "compileall", "-q"}[:1+pick(3)]
	if fault == 1 {
		extra = []string{"fail"}
	}
	if _, err := python.ExternalCompiler(); err == nil {
		nd.Assert(false, "an empty compiler command is accepted")
	}
	exe := d + "/tool"
	if fault == 3 {
		exe = d + "/nosuch"
	}
	c, err := python.ExternalCompiler(append([]string{exe}, extra...)...)
	if fault == 3 {
		nd.Assert(err != nil, "a compiler that does not exist is accepted")
		return
	}
	nd.Assert(err == nil, "an existing compiler is refused")
	if nd.Flip() {
		// a compiler is used for more than one wheel
		_, err := c(context.Background(), time.Time{}, nil, nil)
		nd.Assert((err != nil) == (fault == 1), "compiling nothing fails")
		os.Remove(d + "/tool.src")
		os.Remove(d + "/tool.args")
	}
	out, err := c(context.Background(), clamp, pp, in)
	if fault == 1 || fault == 2 && len(in) > 0 {
		nd.Assert(err != nil, "a failure of the compiler is not reported")
		nd.Assert(len(out) == 0, "a failed compilation returns files")
		nd.Reach("fault")
		return
	}
	nd.Assert(err == nil, "compiling fails")
	a, err := os.ReadFile(d + "/tool.args")
	nd.Assert(err == nil, "the compiler is not run")
	args := strings.Split(strings.TrimSuffix(string(a), "\n"), "\n")
	n := len(extra)
	nd.Assert(len(args) == n+5, "the compiler is not given its arguments and the directory")
	for i := range extra {
		nd.Assert(args[i] == extra[i], "the compiler is not given its configured arguments")
	}
	tmp := args[n+4]
	nd.Assert(args[n] == "-s" && args[n+1] == tmp && args[n+2] == "-p" && args[n+3] == "/", "the recorded source paths are not those of the target")
	_, err = os.Stat(tmp)
	nd.Assert(err != nil, "the scratch directory is left behind")
	s, _ := os.ReadFile(d + "/tool.src")
	nd.Assert(string(s) == src, "the compiler does not see exactly the given sources with their times")
	e, err := os.ReadFile(d + "/tool.env")
	nd.Assert(err == nil, "the compiler is not run")
	want := ""
	for _, x := range pp {
		want += ":" + tmp + "/" + x
	}
	if inherited != "" {
		want += ":" + inherited
	}
	want = strings.TrimPrefix(want, ":")
	nd.Assert(string(e) == fmt.Sprintf("0\n%s\n%s\n", sde, want), "the compiler does not get the fixed hash seed, the clamp time or the search path")
	nd.Assert(len(out) == len(in), "the result is not one compiled file per source")
	for _, f := range out {
		b, ok := bodies[f.FullName()]
		nd.Assert(ok, "the result has a file that is not a compiled source")
		g := readRef(f)
		nd.Assert(len(g) == len(b)+1 && string(g[1:]) == string(b), "a compiled file has other content")
		nd.Assert(f.Size() == int64(len(g)) && f.Mode().IsRegular() && f.Name() == f.FullName()[strings.LastIndexByte(f.FullName(), '/')+1:], "a compiled file has wrong metadata")
		delete(bodies, f.FullName())
	}
	nd.Reach("compiled")
}

// Tool installs the stand-in compiler as p.
func Tool(p string) {
	execw.Hook = toolHook
	must(os.WriteFile(p, []byte(tool), 0o755))
	must(os.Chmod(p, 0o755))
}
