package whlh

import (
	"path"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// jr is a reader of JSON objects whose values are strings, booleans and objects.
type jr struct {
	s  string
	i  int
	ok bool
}

func (j *jr) ws() {
	for j.i < len(j.s) && (j.s[j.i] == ' ' || j.s[j.i] == '\n' || j.s[j.i] == '\t' || j.s[j.i] == '\r') {
		j.i++
	}
}

func (j *jr) eat(c byte) bool {
	j.ws()
	if j.i < len(j.s) && j.s[j.i] == c {
		j.i++
		return true
	}
	return false
}

func (j *jr) str() string {
	if !j.eat('"') {
		j.ok = false
		return ""
	}
	r := []byte{}
	for j.i < len(j.s) {
		c := j.s[j.i]
		j.i++
		if c == '"' {
			return string(r)
		}
		if c < 0x20 {
			break
		}
		if c != '\\' {
			r = append(r, c)
			continue
		}
		if j.i >= len(j.s) {
			break
		}
		e := j.s[j.i]
		j.i++
		switch e {
		case '"', '\\', '/':
			r = append(r, e)
		case 'n':
			r = append(r, '\n')
		case 't':
			r = append(r, '\t')
		case 'r':
			r = append(r, '\r')
		case 'b':
			r = append(r, '\b')
		case 'f':
			r = append(r, '\f')
		case 'u':
			if j.i+4 > len(j.s) {
				j.ok = false
				return ""
			}
			v, err := strconv.ParseUint(j.s[j.i:j.i+4], 16, 32)
			if err != nil || v > 127 {
				j.ok = false
				return ""
			}
			r = append(r, byte(v))
			j.i += 4
		default:
			j.ok = false
			return ""
		}
	}
	j.ok = false
	return ""
}

// obj lists the members as path=value.
func (j *jr) obj(pre string, out *[]string) {
	if !j.eat('{') {
		j.ok = false
		return
	}
	if j.eat('}') {
		return
	}
	for j.ok {
		k := pre + j.str()
		if !j.eat(':') {
			break
		}
		j.ws()
		switch {
		case j.i < len(j.s) && j.s[j.i] == '{':
			*out = append(*out, k+"={}")
			j.obj(k+".", out)
		case strings.HasPrefix(j.s[j.i:], "true"):
			j.i += 4
			*out = append(*out, k+"=true")
		case strings.HasPrefix(j.s[j.i:], "false"):
			j.i += 5
			*out = append(*out, k+"=false")
		default:
			*out = append(*out, k+"=s"+j.str())
		}
		if j.eat('}') {
			return
		}
		if !j.eat(',') {
			break
		}
	}
	j.ok = false
}

func text(n int) string {
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte()
		nd.Assume(c < 0x7f)
		b[i] = c
	}
	return string(b)
}

// Origin: direct_url.json says where the distribution came from.
func Origin() {
	focus := nd.Choose(5) // whose text is symbolic
	txt := func(i, n int) string {
		if i != focus {
			return "abc"[:n]
		}
		return text(n)
	}
	u := direct_url.DirectURL{}
	if focus == 0 {
		u.URL = text(nd.Choose(nd.Q(3, 4)))
	} else {
		u.URL = "http://h/f?a=b&c"
	}
	want := []string{"url=s" + u.URL}
	switch nd.Choose(5) {
	case 0:
	case 1:
		u.VCSInfo = &direct_url.VCSInfo{VCS: txt(1, 1), CommitID: txt(2, 1)}
		want = append(want, "vcs_info={}", "vcs_info.vcs=s"+u.VCSInfo.VCS, "vcs_info.commit_id=s"+u.VCSInfo.CommitID)
	case 2:
		u.VCSInfo = &direct_url.VCSInfo{VCS: "git", CommitID: txt(2, 1), RequestedRevision: txt(3, 2)}
		want = append(want, "vcs_info={}", "vcs_info.vcs=sgit", "vcs_info.commit_id=s"+u.VCSInfo.CommitID, "vcs_info.requested_revision=s"+u.VCSInfo.RequestedRevision)
	case 3:
		u.ArchiveInfo = &direct_url.ArchiveInfo{}
		want = append(want, "archive_info={}")
		if nd.Flip() {
			u.ArchiveInfo.Hash = txt(4, 2)
			want = append(want, "archive_info.hash=s"+u.ArchiveInfo.Hash)
		}
	case 4:
		u.DirInfo = &direct_url.DirInfo{}
		want = append(want, "dir_info={}")
		if nd.Flip() {
			u.DirInfo.Editable = true
			want = append(want, "dir_info.editable=true")
		}
	}
	p := plat()
	es := []zent{wheelFile("true"), zfile("f.py", []byte("x"))}
	if nd.Flip() { // a file that the wheel itself brings is not to be believed
		es = append(es, zfile(info+"/direct_url.json", []byte("{}")))
	}
	es = append(es, record(es))
	none := nd.Choose(4) == 0
	var hook bdist.PostInstallHook
	if none {
		hook = recording_installs.Record("sha256", "t", nil)
	} else {
		hook = recording_installs.Record("sha256", "t", &u)
	}
	l, err := install(req{plat: p, es: es, hook: hook})
	nd.Assert(err == nil, "installing a good wheel fails")
	os := read(l)
	fn := "lib/pure/" + info + "/direct_url.json"
	if none {
		nd.Assert(count(os, fn) == len(es)-3, "an origin is recorded that was not given")
		nd.Reach("none")
		return
	}
	nd.Assert(count(os, fn) == 1, "the origin is not recorded exactly once")
	o := os[find(os, fn)]
	j := jr{s: string(o.body), ok: true}
	var got []string
	j.obj("", &got)
	j.ws()
	nd.Assert(j.ok && j.i == len(j.s), "direct_url.json is not a JSON object")
	nd.Assert(len(got) == len(want), "direct_url.json has other members than the origin given")
	for _, w := range want {
		found := false
		for _, g := range got {
			found = found || g == w
		}
		nd.Assert(found, "direct_url.json does not say the origin given")
	}
	nd.Assert(o.h.Mode&0o7777 == 0o644 && o.h.Uid == p.UID && o.h.Gid == p.GID, "direct_url.json has an odd mode or owner")
	// it is listed like any installed file
	rec := os[find(os, "lib/pure/"+info+"/RECORD")]
	row := path.Join(info, "direct_url.json") + "," + recHash("sha256", o.body) + "," + strconv.Itoa(len(o.body))
	found := false
	for _, ln := range strings.Split(string(rec.body), "\r\n") {
		found = found || ln == row
	}
	nd.Assert(found, "direct_url.json is not listed in RECORD")
	nd.Reach("recorded")
}

// SimpleWheel writes a wheel with one module and one entry point.
func SimpleWheel(dir string, body []byte, tampered bool) string {
	es := []zent{wheelFile("true"), zfile("f.py", body), zfile(info+"/entry_points.txt", []byte("[console_scripts]\nx=f:g\n[gui_scripts]\ny=f:g\n"))}
	es = append(es, record(es))
	if tampered {
		es[1].body = append([]byte{}, body...)
		es[1].body[0] ^= 1
	}
	return pack(dir, es)
}
