// Package clih checks the help text machinery.
package clih

import (
	"os"

	"github.com/datawire/ocibuild/pkg/cliutil"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func blank(c byte) bool { return nd.SymBranch(c == ' ' || c == '\n') }

func words(s string) []string {
	var r []string
	w := -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || blank(s[i]) {
			if w >= 0 {
				r = append(r, s[w:i])
			}
			w = -1
		} else if w < 0 {
			w = i
		}
	}
	return r
}

func lines(s string) []string {
	var r []string
	b := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || nd.SymBranch(s[i] == '\n') {
			r = append(r, s[b:i])
			b = i + 1
		}
	}
	return r
}

// Wrap: the words stay and the lines fit.
func Wrap() {
	indent := []int{0, 6}[nd.Choose(2)]
	extra := nd.Choose(nd.Q(2, 3))
	room := 24 + extra // to wrap into
	w := indent + room
	// words of up to 7 letters; where they end is symbolic within a window
	n := nd.Q(40, 56)
	b := []byte{}
	for len(b) < n {
		for k := 0; k < 5; k++ {
			b = append(b, byte('a'+len(b)%26))
		}
		// one or two blanks, one of them possibly a letter
		switch nd.Choose(3) {
		case 0:
			b = append(b, ' ')
		case 1:
			b = append(b, 'x', ' ')
		case 2:
			if len(b) > 20 && len(b) < 30 {
				b = append(b, '\n')
			} else {
				b = append(b, ' ', ' ')
			}
		}
	}
	b = append(b, 'z')
	s := string(b)
	g := ""
	if indent == 0 {
		g = cliutil.Wrap(w, s)
	} else {
		g = cliutil.WrapIndent(indent, w, s)
	}
	a, c := words(s), words(g)
	nd.Assert(len(a) == len(c), "wrapping loses, adds or splits a word")
	for i := range a {
		nd.Assert(a[i] == c[i], "wrapping changes a word")
	}
	for i, l := range lines(g) {
		if i == 0 {
			nd.Assert(len(l) <= room, "a line is longer than the width")
			continue
		}
		nd.Assert(len(l) <= w, "a line is longer than the width")
		for k := 0; k < indent; k++ {
			nd.Assert(len(l) > k && l[k] == ' ', "a continuation line is not indented")
		}
	}
	nd.Reach("wrapped")
}

// Any: symbolic characters around the first break.
func Any() {
	w := 26 + nd.Choose(4)
	pre := "aaaaa bbbbb "
	sym := make([]byte, nd.Q(8, 10))
	for i := range sym {
		c := nd.Byte()
		nd.Assume(c == ' ' || c == '\n' || c == 'x')
		sym[i] = c
	}
	s := pre + string(sym) + " ccccc ddddd eeeee fff"
	g := cliutil.Wrap(w, s)
	a, c := words(s), words(g)
	nd.Assert(len(a) == len(c), "wrapping loses, adds or splits a word")
	for i := range a {
		nd.Assert(a[i] == c[i], "wrapping changes a word")
	}
	for _, l := range lines(g) {
		nd.Assert(len(l) <= w, "a line is longer than the width")
	}
	nd.Reach("wrapped")
}

// None: width 0 means no wrapping, and a width too narrow to wrap loses nothing.
func None() {
	s := make([]byte, nd.Choose(nd.Q(4, 6)))
	for i := range s {
		c := nd.Byte()
		nd.Assume(c == ' ' || c == '\n' || c == 'x' || c == 'y')
		s[i] = c
	}
	if nd.Flip() {
		g := cliutil.Wrap(0, string(s))
		nd.Assert(g == string(s), "text is changed although no wrapping is asked for")
		g = cliutil.WrapIndent(3, 0, string(s))
		a, c := lines(string(s)), lines(g)
		nd.Assert(len(a) == len(c), "text is changed although no wrapping is asked for")
		for i := range a {
			if i == 0 {
				nd.Assert(a[i] == c[i], "text is changed although no wrapping is asked for")
			} else {
				nd.Assert("   "+a[i] == c[i], "a line is not indented")
			}
		}
		nd.Reach("unwrapped")
		return
	}
	g := cliutil.WrapIndent(nd.Range(0, 30), 1+nd.Choose(39), string(s))
	a, c := words(string(s)), words(g)
	nd.Assert(len(a) == len(c), "a narrow terminal loses words")
	for i := range a {
		nd.Assert(a[i] == c[i], "a narrow terminal loses words")
	}
	nd.Reach("narrow")
}

// Width: COLUMNS decides; without it a pipe is not wrapped.
func Width() {
	s := nd.From(nd.Choose(nd.Q(4, 5)), "0129-x")
	if nd.Choose(8) == 0 {
		os.Unsetenv("COLUMNS")
		s = ""
	} else {
		os.Setenv("COLUMNS", s)
	}
	v, ok, neg := 0, len(s) > 0, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case nd.SymBranch(c >= '0' && c <= '9'):
			v = v*10 + int(c-'0')
		case nd.SymBranch(c == '-') && i == 0 && len(s) > 1:
			neg = true
		default:
			ok = false
		}
	}
	if !ok {
		v = 0
	} else if neg {
		v = -v
	}
	nd.Assert(cliutil.GetTerminalWidth() == v, "the width is not COLUMNS, or none for a pipe")
	nd.Reach("width")
}
