package whlh

import (
	"archive/tar"
	"path"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

func isDirName(n string) bool { return strings.HasSuffix(n, "/") }

// vouched tells whether a RECORD row vouches for the file: strong hash of this very content.
type row struct {
	name, hash, size string
	strong           bool
	of               []byte // content the hash is of; nil hash means none
	none             bool
}

func (r row) text() string { return r.name + "," + r.hash + "," + r.size + "\n" }

func goodRow(name string, body []byte) row {
	return row{name: name, hash: recHash("sha256", body), size: itoa(len(body)), strong: true, of: body}
}

func itoa(n int) string { return strconv.Itoa(n) }

// check installs and compares with the rule.
func checkInteg(es []zent, rows []row, plain bool) {
	s := ""
	for _, r := range rows {
		s += r.text()
	}
	all := append(append([]zent(nil), es...), zfile(info+"/RECORD", []byte(s+info+"/RECORD,,\n")))
	l, err := install(req{plat: plat(), es: all})
	// the rule
	ok, why := true, ""
	fail := func(m string) {
		if ok {
			ok, why = false, m
		}
	}
	for i, e := range es {
		if isDirName(e.name) {
			continue
		}
		for j, f := range all {
			if i != j && path.Clean(f.name) == path.Clean(e.name) {
				fail("a duplicated file is accepted")
			}
		}
		if e.name == info+"/RECORD.jws" || e.name == info+"/RECORD.p7s" {
			continue
		}
		listed := false
		for _, r := range rows {
			if path.Clean(r.name) == path.Clean(e.name) {
				listed = true
				if r.none {
					fail("a file without a hash is accepted")
				} else if !r.strong {
					fail("a file with a weak hash is accepted")
				} else if string(r.of) != string(e.body) {
					fail("a file that does not match its hash is accepted")
				} else if r.size != itoa(len(e.body)) {
					fail("a file that does not have its listed size is accepted")
				}
			}
		}
		if !listed {
			fail("a file that RECORD does not list is accepted")
		}
	}
	for _, r := range rows {
		found := false
		for _, e := range all {
			if path.Clean(e.name) == path.Clean(r.name) {
				found = true
			}
		}
		if !found {
			fail("a listed file that is missing is accepted")
		}
	}
	nd.Assert(err == nil || !ok || !plain, "a wheel whose files all match RECORD is refused")
	if err == nil {
		nd.Assert(ok, why)
		for _, o := range read(l) {
			if o.h.Typeflag != tar.TypeReg || o.name == "lib/pure/"+info+"/WHEEL" {
				continue
			}
			good := false
			for _, r := range rows {
				if r.strong && !r.none && o.name == "lib/pure/"+path.Clean(r.name) && string(r.of) == string(o.body) {
					good = true
				}
			}
			if strings.HasSuffix(o.name, ".jws") || strings.HasSuffix(o.name, ".p7s") {
				good = true
			}
			nd.Assert(good, "an installed file does not have the content RECORD vouches for")
		}
		nd.Reach("installed")
	} else {
		nd.Reach("refused")
	}
}

// Tampered: one or two files against every kind of RECORD row.
func Tampered() {
	w := wheelFile("true")
	es := []zent{w}
	rows := []row{goodRow(w.name, w.body)}
	body := nd.Bytes(1)
	name := lower('b')
	es = append(es, zfile(name, body))
	switch nd.Choose(15) {
	case 12: // names that differ by case only
		r := goodRow(nd.From(1, "aAbB"), body)
		rows = append(rows, r)
	case 13: // a hash that differs by case only
		b := []byte("x")
		h := []byte(recHash("sha256", b))
		for i := 7; i < len(h); i++ {
			if c := h[i] | 0x20; 'a' <= c && c <= 'z' {
				h[i] ^= 0x20
				break
			}
		}
		es[1].body = b
		rows = append(rows, row{name: name, hash: string(h), size: "1", strong: true, of: []byte("other")})
	case 14: // sizes that do not fit
		r := goodRow(name, body)
		r.size = nd.Pick("4294967297", "18446744073709551617", "-1", "1e0", "0x1")
		rows = append(rows, r)
	case 9: // another size
		r := goodRow(name, body)
		r.size = nd.From(1+nd.Choose(2), "0123456789")
		rows = append(rows, r)
	case 10: // an unlisted metadata file
		rows = append(rows, goodRow(name, body))
		es = append(es, zfile(info+"/"+nd.Pick("INSTALLER", "REQUESTED", "METADATA", "record", "direct_url.json", "entry_points.txt", "WHEEL.jws", "sub/RECORD"), nil))
	case 11: // signature or not
		rows = append(rows, goodRow(name, body))
		x := nd.From(3, "jwsp7")
		es = append(es, zfile(info+"/RECORD."+x, nd.Bytes(1)))
	case 0: // row for a maybe different content and name
		rows = append(rows, goodRow(lower('b'), nd.Bytes(1)))
	case 1: // not listed
	case 2: // other strong algorithms
		alg := nd.Pick("sha384", "sha512")
		b := nd.Bytes(1)
		rows = append(rows, row{name: name, hash: recHash(alg, b), size: "1", strong: true, of: b})
	case 3: // weak algorithms
		rows = append(rows, row{name: name, hash: recHash(nd.Pick("md5", "sha1", "sha224"), body), size: "1", of: body})
	case 4: // no hash
		rows = append(rows, row{name: name, size: nd.Pick("1", ""), none: true})
	case 5: // garbage hash
		rows = append(rows, row{name: name, hash: nd.Pick("sha256", "sha256=", "=", "x=y", "SHA256="+recHash("sha256", body)[7:], recHash("sha256", body)[7:]), size: "1", none: true})
	case 6: // duplicate rows, maybe disagreeing
		rows = append(rows, goodRow(name, body), goodRow(name, nd.Bytes(1)))
	case 7: // a row too many
		rows = append(rows, goodRow(name, body), goodRow(lower('c'), nd.Bytes(1)))
	case 8: // a file too many
		x := lower('c')
		nd.Assume(x != name)
		es = append(es, zfile(x, nd.Bytes(nd.Choose(2))))
		rows = append(rows, goodRow(name, body))
	}
	checkInteg(es, rows, true)
	nd.Reach("end")
}

// csvField is a name as a RECORD field: quoted where it must be, or always.
func csvField(s string, always bool) string {
	q := always
	r := ""
	for i := 0; i < len(s); i++ {
		if nd.SymBranch(s[i] == '"') {
			r += "\"\""
			q = true
			continue
		}
		q = q || nd.SymBranch(s[i] == ',')
		r += s[i : i+1]
	}
	if q {
		return "\"" + r + "\""
	}
	return r
}

// AnyName: files with any printable names are checked and installed.
func AnyName() {
	w := wheelFile("true")
	n := 1 + nd.Choose(nd.Q(3, 4))
	s := nd.Str(n)
	for i := 0; i < n; i++ {
		nd.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '/' && s[i] != '\\')
	}
	nd.Assume(s != "." && s != "..")
	switch nd.Choose(3) {
	case 1:
		s = "p/" + s
	case 2:
		s += "/f"
	}
	other := nd.From(1, "aA")
	nd.Assume(s != other && !within(other, s))
	es := []zent{w, zfile(s, nd.Bytes(1)), zfile(other, nd.Bytes(1))}
	bad := nd.Byte()
	rows := recRow(w.name, w.body) + csvField(s, nd.Flip()) + "," + recHash("sha256", []byte{bad}) + ",1\n" + recRow(other, es[2].body)
	es = append(es, zfile(info+"/RECORD", []byte(rows+info+"/RECORD,,\n")))
	l, err := install(req{plat: plat(), es: es})
	nd.Assert((err == nil) == (bad == es[1].body[0]), "a file is not checked against its hash")
	if err != nil {
		nd.Reach("refused")
		return
	}
	os := read(l)
	for _, e := range es[1:3] {
		i := find(os, "lib/pure/"+e.name)
		nd.Assert(i >= 0, "a file is not installed")
		nd.Assert(string(os[i].body) == string(e.body), "an installed file does not have the content RECORD vouches for")
	}
	nd.Reach("installed")
}

// Sneaky: entries of the same place with different names, kinds and attributes.
func Sneaky() {
	w := wheelFile("true")
	es := []zent{w}
	rows := []row{goodRow(w.name, w.body)}
	n := 1 + nd.Choose(2)
	for i := 0; i < n; i++ {
		e := zfile(nd.Pick("a", "a/", "./a", "b/../a", "/a", "b/a", "b//a", info+"/RECORD.jws", info+"/RECORD.p7s", "x/RECORD.jws", info+"/x/RECORD.p7s"), nil)
		if !isDirName(e.name) {
			e.body = nd.Bytes(1)
		}
		switch nd.Choose(4) {
		case 1:
			e.creator, e.attrs = 0, 0x10 // FAT directory bit
		case 2:
			e.attrs = 0o40755 << 16 // Unix directory
		case 3:
			e.attrs = uint32(nd.SymU16()) << 16
		}
		es = append(es, e)
	}
	if nd.Flip() {
		rows = append(rows, goodRow("a", nd.Bytes(1)))
	}
	if nd.Flip() {
		rows = append(rows, goodRow("b/a", nd.Bytes(1)))
	}
	checkInteg(es, rows, false)
	nd.Reach("end")
}

// Data: files below the data directory are checked like any other.
func DataFiles() {
	w := wheelFile("false")
	name := data + "/" + cats[nd.Choose(5)] + "/f"
	b := nd.Bytes(nd.Choose(3))
	es := []zent{w, zfile(name, b)}
	h := nd.Bytes(nd.Choose(3))
	rows := []row{goodRow(w.name, w.body), goodRow(name, h)}
	if nd.Flip() {
		rows = rows[:1]
	}
	s := ""
	for _, r := range rows {
		s += r.text()
	}
	es = append(es, zfile(info+"/RECORD", []byte(s+info+"/RECORD,,\n")))
	_, err := install(req{plat: plat(), es: es})
	good := len(rows) == 2 && string(h) == string(b)
	nd.Assert((err == nil) == good, "a data file is not checked against RECORD")
	nd.Reach("end")
}
