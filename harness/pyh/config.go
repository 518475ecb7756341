package pyh

import (
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type kv struct{ sect, key, val string }

type spec struct {
	delims, comments, inline []string
	strict, empty, lower     bool
}

func defaults() spec {
	return spec{delims: []string{"=", ":"}, comments: []string{"#", ";"}, strict: true, empty: true, lower: true}
}

func isSp(c byte) bool { return nd.SymBranch(c == ' ' || c >= '\t' && c <= '\r') }

func strip(s string) string {
	for len(s) > 0 && isSp(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && isSp(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func has(s, p string) bool {
	return len(s) >= len(p) && nd.SymBranch(s[:len(p)] == p)
}

// parsePy does what configparser.RawConfigParser._read does to a list of lines.
func parsePy(sp spec, lines []string) (sects []string, vals []kv, ok bool) {
	cur := -1          // current section
	opt := -1          // current option
	indent := 0        // indentation of the current header or option
	failed := false    // an error that Python reports at the end
	var parts []string // the lines of the current value
	flush := func() {
		if opt >= 0 {
			vals[opt].val = strings.TrimRight(strings.Join(parts, "\n"), "\n")
		}
	}
	for _, line := range lines {
		cut := -1
		for i := range line {
			for _, p := range sp.inline {
				if cut < 0 && has(line[i:], p) && (i == 0 || isSp(line[i-1])) {
					cut = i
				}
			}
		}
		for _, p := range sp.comments {
			if has(strip(line), p) {
				cut = 0
			}
		}
		v := line
		if cut >= 0 {
			v = line[:cut]
		}
		v = strip(v)
		if v == "" {
			if !sp.empty {
				indent = 1 << 30
			} else if cut < 0 && opt >= 0 {
				parts = append(parts, "")
			}
			continue
		}
		ind := 0
		for isSp(line[ind]) {
			ind++
		}
		if opt >= 0 && ind > indent {
			parts = append(parts, v)
			continue
		}
		indent = ind
		if end := lastByte(v, ']'); end > 1 && has(v, "[") {
			flush()
			opt = -1
			name := v[1:end]
			cur = -1
			for i := range sects {
				if nd.SymBranch(sects[i] == name) {
					cur = i
				}
			}
			if cur >= 0 && sp.strict {
				return nil, nil, false
			}
			if cur < 0 {
				cur = len(sects)
				sects = append(sects, name)
			}
			continue
		}
		if cur < 0 {
			return nil, nil, false
		}
		flush()
		opt = -1
		sep, n := -1, 0
		for i := 0; i < len(v) && sep < 0; i++ {
			for _, d := range sp.delims {
				if sep < 0 && has(v[i:], d) {
					sep, n = i, len(d)
				}
			}
		}
		if sep < 0 {
			failed = true
			continue
		}
		k := strip(v[:sep])
		if k == "" {
			failed = true
			continue
		}
		if sp.lower {
			k = strings.ToLower(k)
		}
		for i := range vals {
			if nd.SymBranch(vals[i].sect == sects[cur] && vals[i].key == k) {
				if sp.strict {
					return nil, nil, false
				}
				opt = i
			}
		}
		if opt < 0 {
			opt = len(vals)
			vals = append(vals, kv{sects[cur], k, ""})
		}
		parts = []string{strip(v[sep+n:])}
	}
	flush()
	return sects, vals, !failed
}

func lastByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if nd.SymBranch(s[i] == c) {
			return i
		}
	}
	return -1
}

func config(sp spec, lines []string) {
	p := python.NewConfigParser()
	p.Delimiters, p.CommentPrefixes, p.InlineCommentPrefixes = sp.delims, sp.comments, sp.inline
	p.Strict, p.EmptyLinesInValues = sp.strict, sp.empty
	if !sp.lower {
		p.OptionTransform = func(s string) string { return s }
	}
	text := strings.Join(lines, "\n")
	if nd.Flip() {
		text += "\n"
	}
	c, err := p.Parse(strings.NewReader(text))
	sects, vals, ok := parsePy(sp, lines)
	nd.Assert((err == nil) == ok, "a file is refused that Python accepts, or the other way round")
	if err != nil {
		nd.Reach("refused")
		nd.Reach("end")
		return
	}
	nd.Assert(len(c) == len(sects), "the sections differ from Python's")
	n := 0
	for _, s := range sects {
		_, ok := c[s]
		nd.Assert(ok, "the sections differ from Python's")
		n += len(c[s])
	}
	nd.Assert(n == len(vals), "the options differ from Python's")
	for _, v := range vals {
		got, ok := c[v.sect][v.key]
		nd.Assert(ok, "the options differ from Python's")
		nd.Assert(got == v.val, "a value differs from Python's")
		nd.Observe("kv", v.sect+"|"+v.key+"|"+v.val)
	}
	nd.Reach("accepted")
	nd.Reach("end")
}

// ConfigAny: any two short lines, alone or in a section.
func ConfigAny() {
	n := nd.Q(4, 5)
	ls := []string{nd.From(nd.Choose(n), " [a]=#"), nd.From(nd.Choose(n), " ]b[=:")}
	if nd.Flip() {
		ls = append([]string{"[s]"}, ls...)
	}
	config(defaults(), ls)
}

// ConfigValues: what can follow an option.
func ConfigValues() {
	n := nd.Q(4, 5)
	x, y := nd.Choose(n), nd.Choose(n)
	nd.Assume(x+y <= nd.Q(4, 6))
	ls := []string{"[s]", nd.Pick("a=b", " a=", "A : b = c", "a"), nd.From(x, " \tb=;"), nd.From(y, " c=\r\v\f")}
	if nd.Flip() {
		ls = append(ls, nd.Pick(" x", "[t]", "d=[e]", " [t]", "[s]"))
	}
	config(defaults(), ls)
}

// ConfigDups: repeated sections and options.
func ConfigDups() {
	sp := defaults()
	sp.strict, sp.lower = nd.Flip(), nd.Flip()
	ls := []string{"[" + nd.From(1, "sSt") + "]", nd.From(1, "aAb") + "=1", "[" + nd.From(1, "sS]") + "]", nd.From(1, "aAb") + "=" + nd.From(1, "12=")}
	switch nd.Choose(3) {
	case 1:
		ls[2] = nd.From(1, "aAb") + ":2"
	case 2:
		ls = append(ls, " 3", nd.From(1, "aAb")+"=4")
	}
	config(sp, ls)
}

// ConfigOptions: other delimiters, comment prefixes and value rules.
func ConfigOptions() {
	sp := defaults()
	ls := []string{"[s]", "a=b", "", ""}
	switch nd.Choose(4) {
	case 0:
		sp.empty = false
		ls[2] = nd.From(nd.Choose(3), " c=#")
		ls[3] = nd.From(nd.Choose(4), " d=")
	case 1:
		sp.delims = [][]string{{"="}, {":=", "="}, {"==", "="}}[nd.Choose(3)]
		ls[2] = nd.From(nd.Choose(5), "c:= ")
		ls[3] = "c=d"
	case 2:
		sp.inline = [][]string{{"#"}, {";", "#"}, {"//"}}[nd.Choose(3)]
		ls[1] = "a=" + nd.From(nd.Choose(6), "b #")
		ls[2] = nd.From(nd.Choose(4), " ;=/c")
	case 3:
		sp.comments = [][]string{{}, {"//"}, {"#"}}[nd.Choose(3)]
		ls[2] = nd.From(nd.Choose(5), " #;=/")
	}
	config(sp, ls)
}

// ConfigLines: any sequence of lines of the usual kinds.
func ConfigLines() {
	sp := defaults()
	sp.strict = !nd.Flip()
	if nd.SymThorough() {
		sp.empty = !nd.Flip()
	}
	ls := []string{"[s]"}
	x := nd.From(1, "ab")
	for i := 0; i < 4; i++ {
		n := 11
		if i == 0 {
			n = 4
		}
		if !nd.SymThorough() && i < 3 && n > 8 {
			n = 8
		}
		ls = append(ls, []string{"a = 1", " a = 2", "  b", "", x + ":3", "# c", "   [t]", " ", "[t]", "[s]", "  # d"}[nd.Choose(n)])
	}
	config(sp, ls)
}
