package whlh

import (
	"bytes"
	"strconv"

	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// Requested: an install that was asked for says so, with the given marker, and changes nothing else.
func Requested() {
	n := nd.Choose(nd.Q(3, 4))
	marker := string(nd.Bytes(n))
	p := plat()
	es := []zent{wheelFile(nd.Pick("true", "false")), zfile("f.py", nd.Bytes(1))}
	if nd.Flip() { // a file that the wheel itself brings is not to be believed
		es = append(es, zfile(info+"/REQUESTED", []byte("# no")))
	}
	given := len(es)
	es = append(es, record(es))
	ask := nd.Flip()
	var hooks []bdist.PostInstallHook
	if ask {
		hooks = append(hooks, pep376.RecordRequested(marker))
	}
	rec := nd.Flip()
	if rec {
		hooks = append(hooks, recording_installs.Record("sha256", "t", nil))
	}
	l, err := install(req{plat: p, es: es, hook: bdist.PostInstallHooks(hooks...)})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	var base []out
	l, err = install(req{plat: p, es: es, hook: bdist.PostInstallHooks(hooks[map[bool]int{false: 0, true: 1}[ask]:]...)})
	nd.Assert(err == nil, "installing a good wheel fails")
	base = read(l)
	lib := "lib/pure/"
	if count(os, lib+"f.py") == 0 {
		lib = "lib/plat/"
	}
	fn := lib + info + "/REQUESTED"
	want := 0
	if ask || given == 3 {
		want = 1
	}
	nd.Assert(count(os, fn) == want, "there is a REQUESTED file exactly when the install was not asked for")
	if ask {
		o := os[find(os, fn)]
		body := marker
		if marker != "" {
			body += "\n"
		}
		nd.Assert(string(o.body) == body, "REQUESTED does not hold the given marker")
		nd.Assert(o.h.Uid == p.UID && o.h.Gid == p.GID && o.h.Uname == p.UName && o.h.Gname == p.GName && o.h.Mode&0o7777 == 0o644, "REQUESTED has another owner or mode")
		if rec {
			n := 0
			for _, row := range parseCSV(string(os[find(os, lib+info+"/RECORD")].body)) {
				if row[0] == info+"/REQUESTED" {
					n++
					nd.Assert(len(row) == 3 && row[1] == recHash("sha256", o.body) && row[2] == strconv.Itoa(len(o.body)), "REQUESTED is listed with another hash or size")
				}
			}
			nd.Assert(n == 1, "REQUESTED is not listed in RECORD")
		}
		nd.Reach("asked")
	}
	// everything else is as it would be without
	for _, o := range os {
		if o.name == fn || o.name == lib+info+"/RECORD" {
			continue
		}
		i := find(base, o.name)
		nd.Assert(i >= 0, "asking adds another file")
		b := base[i]
		nd.Assert(b.h.Typeflag == o.h.Typeflag && b.h.Mode == o.h.Mode && b.h.ModTime.Equal(o.h.ModTime) && bytes.Equal(b.body, o.body), "asking changes another file")
	}
	for _, b := range base {
		nd.Assert(count(os, b.name) == 1, "asking drops another file")
	}
	nd.Reach("end")
}
