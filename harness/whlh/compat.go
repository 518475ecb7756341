package whlh

import (
	"context"
	"errors"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
	p4 "github.com/datawire/ocibuild/zz_verif/pep440h"
)

// FormatVersion: wheels of a later major format version, or of none, are refused.
func FormatVersion() {
	d := "0123456789"
	v, pre, post := "", "", ""
	switch nd.Choose(4) {
	case 0: // major only, or a longer number
		v = nd.From(1+nd.Choose(nd.Q(2, 3)), d)
	case 1:
		v = nd.From(1, d) + "." + nd.From(1+nd.Choose(2), d)
	case 2:
		v = nd.From(1, d) + "." + nd.From(1, d) + nd.Pick(".7", "rc1", ".post2", ".dev3", "+x")
	case 3:
		v = nd.From(nd.Choose(4), "12.xa-+")
	}
	if nd.Flip() {
		pre, post = "Generator: x (1.0)\n", "Tag: py3-none-any\nTag: py2-none-any\nBuild: 2\n"
	}
	body := pre + "Wheel-Version: " + v + "\n" + "Root-Is-Purelib: true\n" + post
	es := []zent{zfile(info+"/WHEEL", []byte(body)), zfile("f.py", nd.Bytes(1))}
	es = append(es, record(es))
	l, err := install(req{plat: plat(), es: es})
	ver, ok := p4.OracleParse(v)
	if !ok {
		nd.Assert(err != nil, "a wheel without a valid format version is installed")
		nd.Reach("invalid")
		return
	}
	if nd.SymBranch(ver.Release[0] > 1) {
		nd.Assert(err != nil, "a wheel of a later major format version is installed")
		nd.Reach("newer")
		return
	}
	nd.Assert(err == nil, "a wheel of a supported format version is refused")
	nd.Assert(find(read(l), "lib/pure/f.py") >= 0, "a file is not installed")
	nd.Reach("end")
}

// Skeleton: a wheel has exactly one .dist-info directory, with WHEEL and RECORD in it.
func Skeleton() {
	var es []zent
	wf := wheelFile("true").body
	hasWheel, hasRecord := nd.Flip(), nd.Flip()
	if hasWheel {
		switch nd.Choose(3) {
		case 0:
			es = append(es, zfile(info+"/WHEEL", wf))
		case 1:
			hasWheel = false
			es = append(es, zfile(info+"/"+nd.Pick("wheel", "WHEEL.txt", "x/WHEEL"), wf))
		case 2: // no header at all
			hasWheel = false
			es = append(es, zfile(info+"/WHEEL", []byte(nd.Pick("", "Root-Is-Purelib: true\n", "x"))))
		}
	}
	dup := false
	switch nd.Choose(4) {
	case 1:
		es = append(es, zfile("m/e-1.dist-info/METADATA", nil))
	case 2:
		dup = true
		x := nd.From(1, "defDEF_")
		nd.Assume(x != "d")
		es = append(es, zfile(nd.Pick("", "./", "x/../")+x+"-1.dist-info/METADATA", nil))
	case 3:
		es = append(es, zfile(nd.Pick("dist-info/x", "d-1.dist-info.old/x", "e.egg-info/x"), nil))
	}
	es = append(es, zfile("f.py", nd.Bytes(1)))
	if hasRecord {
		es = append(es, record(es))
	}
	nd.SymMapMode(4 * nd.Choose(2))
	_, err := install(req{plat: plat(), es: es})
	nd.SymMapMode(0)
	good := hasWheel && hasRecord && !dup
	if good {
		nd.Assert(err == nil, "a good wheel is refused")
		nd.Reach("good")
	} else {
		nd.Assert(err != nil, "a wheel without exactly one complete .dist-info directory is installed")
		nd.Reach("bad")
	}
}

// Hooks: post-install hooks run in order, and the first failure is final.
func Hooks() {
	es := []zent{wheelFile("true"), zfile("f.py", nd.Bytes(1))}
	es = append(es, record(es))
	n := nd.Choose(4)
	bad := nd.Choose(4) // position of the failing hook
	ran := ""
	boom := errors.New("boom")
	var hs []bdist.PostInstallHook
	for i := 0; i < n; i++ {
		i := i
		hs = append(hs, func(ctx context.Context, clamp time.Time, vfs map[string]fsutil.FileReference, dir string) error {
			ran += string([]byte{byte('0' + i)})
			nd.Assert(dir == "lib/pure/"+info, "a hook is given the wrong directory")
			nd.Assert(vfs["lib/pure/f.py"] != nil, "a hook does not see the installed files")
			if i == bad {
				return boom
			}
			return nil
		})
	}
	l, err := install(req{plat: plat(), es: es, hook: bdist.PostInstallHooks(hs...)})
	if bad < n {
		nd.Assert(err != nil && errors.Is(err, boom) && l == nil, "a failing hook does not fail the installation")
		nd.Assert(ran == "012"[:bad+1], "hooks run in the wrong order, or after a failure")
		nd.Reach("failed")
		return
	}
	nd.Assert(err == nil, "installing a good wheel fails")
	nd.Assert(ran == "012"[:n], "hooks do not all run, once and in order")
	nd.Reach("end")
}
