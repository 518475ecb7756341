// Package selfh exercises the executor itself: library functions that code (or
// a rewrite of it) may use, on symbolic strings; native replays compare results.
package selfh

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

var re = regexp.MustCompile(`^(?P<a>[a-c]+)-?(?P<b>[0-9]*)$`)

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type key struct{ a, b string }

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

type myErr struct{ code int }

func (e *myErr) Error() string        { return fmt.Sprint("code ", e.code) }
func (e *myErr) Is(target error) bool { return target == fs.ErrNotExist && e.code == 2 }

var cases = []func(s, t string) string{
	func(s, t string) string { a, b, ok := strings.Cut(s, "."); return fmt.Sprint(a, "|", b, ok) },
	func(s, t string) string { return strings.Join(strings.Fields(s+" "+t), "|") },
	func(s, t string) string { return fmt.Sprint(strings.EqualFold(s, t)) },
	func(s, t string) string {
		return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '-' }), "|")
	},
	func(s, t string) string {
		var sb strings.Builder
		for i, r := range s {
			if i > 0 {
				sb.WriteByte('_')
			}
			sb.WriteRune(r)
		}
		sb.WriteString(t)
		fmt.Fprintf(&sb, "%d", sb.Len())
		return sb.String()
	},
	func(s, t string) string { x := []string{s, t, "b"}; sort.Strings(x); return strings.Join(x, "|") },
	func(s, t string) string {
		x := []string{s, t, "b"}
		sort.SliceStable(x, func(i, j int) bool { return x[i] < x[j] })
		return strings.Join(x, "|")
	},
	func(s, t string) string { x := byLen{s, t + "a", "bb"}; sort.Sort(x); return strings.Join(x, "|") },
	func(s, t string) string { x := byLen{s, t, "bb"}; sort.Stable(x); return strings.Join(x, "|") },
	func(s, t string) string {
		x := []string{"a", "b", "c"}
		i := sort.SearchStrings(x, s)
		j := sort.Search(3, func(i int) bool { return x[i] >= t })
		return fmt.Sprint(i, j)
	},
	func(s, t string) string {
		sc := bufio.NewScanner(strings.NewReader(s + "\n" + t))
		n := 0
		for sc.Scan() {
			n += len(sc.Text())
		}
		return fmt.Sprint(n, sc.Err())
	},
	func(s, t string) string {
		r := bufio.NewReader(strings.NewReader(s + "\n" + t))
		l, err := r.ReadString('\n')
		b, err2 := r.Peek(1)
		return fmt.Sprint(l, err, string(b), err2)
	},
	func(s, t string) string {
		var b bytes.Buffer
		w := io.MultiWriter(&b, io.Discard)
		n, err := io.Copy(w, io.TeeReader(io.LimitReader(strings.NewReader(s), 2), &b))
		return fmt.Sprint(n, err, b.String())
	},
	func(s, t string) string {
		bs, err := io.ReadAll(io.MultiReader(strings.NewReader(s), strings.NewReader(t)))
		return fmt.Sprint(string(bs), err)
	},
	func(s, t string) string {
		m := re.FindStringSubmatch(s)
		if m == nil {
			return "no"
		}
		return m[re.SubexpIndex("a")] + "|" + m[re.SubexpIndex("b")] + fmt.Sprint(re.SubexpNames(), re.NumSubexp())
	},
	func(s, t string) string {
		return fmt.Sprint(re.MatchString(s), re.FindString(s), re.FindStringIndex(s), re.FindStringSubmatchIndex(s))
	},
	func(s, t string) string {
		return regexp.MustCompile("[.-]+").ReplaceAllString(s, "_") + regexp.MustCompile("[.-]+").ReplaceAllStringFunc(t, strings.ToUpper)
	},
	func(s, t string) string {
		return strings.Join(regexp.MustCompile("[.-]").Split(s, -1), "|") + fmt.Sprint(regexp.MustCompile("[a-b]").FindAllString(s, -1))
	},
	func(s, t string) string { return fmt.Sprintf("%q %v %s %x %5s|%-5s|", s, t, s, t, s, t) },
	func(s, t string) string { return fmt.Sprintf("%+v %v %#v %T", key{s, t}, []string{s}, s, s) },
	func(s, t string) string {
		return fmt.Sprintf("%v %s %d%% %c %t %p", stringer{s}, stringer{t}, len(s), 'x', s == t, nil)
	},
	func(s, t string) string { return strconv.Quote(s) + strconv.Itoa(len(s)) },
	func(s, t string) string { n, err := strconv.Atoi(s); return fmt.Sprint(n, err) },
	func(s, t string) string { n, err := strconv.ParseInt(s, 10, 8); return fmt.Sprint(n, err) },
	func(s, t string) string { n, err := strconv.ParseUint(s, 0, 64); return fmt.Sprint(n, err) },
	func(s, t string) string {
		return path.Clean(s) + "|" + path.Join(s, t) + "|" + path.Base(s) + path.Dir(t) + path.Ext(s)
	},
	func(s, t string) string {
		d, f := path.Split(s)
		ok, err := path.Match("a*", s)
		return fmt.Sprint(d, f, ok, err, path.IsAbs(t))
	},
	func(s, t string) string {
		r, err := filepath.Rel("/a", "/a/"+s)
		return fmt.Sprint(r, err, filepath.ToSlash(s), filepath.Ext(t))
	},
	func(s, t string) string {
		return hex.EncodeToString([]byte(s)) + base64.StdEncoding.EncodeToString([]byte(t)) + base64.RawURLEncoding.EncodeToString([]byte(s))
	},
	func(s, t string) string { b, err := hex.DecodeString(s); return fmt.Sprint(b, err) },
	func(s, t string) string {
		b, err := base64.StdEncoding.DecodeString(s)
		return fmt.Sprint(string(b), err != nil)
	},
	func(s, t string) string {
		rs, err := csv.NewReader(strings.NewReader("x," + s + "\n")).ReadAll()
		return fmt.Sprint(rs, err)
	},
	func(s, t string) string {
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		err := w.WriteAll([][]string{{s, t}})
		return fmt.Sprint(b.String(), err)
	},
	func(s, t string) string {
		e := fmt.Errorf("x: %w", &myErr{len(s)})
		var m *myErr
		return fmt.Sprint(errors.As(e, &m), errors.Is(e, fs.ErrNotExist), errors.Unwrap(e) == m, e)
	},
	func(s, t string) string {
		m := map[key]int{{s, t}: 1}
		m[key{t, s}] += 2
		delete(m, key{"a", "a"})
		return fmt.Sprint(len(m), m[key{s, t}])
	},
	func(s, t string) string {
		m := map[string][]string{}
		for _, x := range []string{s, t, "a"} {
			m[x] = append(m[x], x)
		}
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return strings.Join(ks, "|")
	},
	func(s, t string) string {
		return strings.Map(func(r rune) rune {
			if r == '.' {
				return -1
			}
			return unicode.ToUpper(r)
		}, s) + strings.Title(t)
	},
	func(s, t string) string {
		return strings.Repeat(s, 2) + strings.Replace(s, "a", "bb", 1) + strings.ReplaceAll(t, ".", "")
	},
	func(s, t string) string {
		return fmt.Sprint(strings.Index(s, t), strings.LastIndex(s, "."), strings.IndexByte(s, 'a'), strings.IndexAny(s, ".-"), strings.Count(s, "a"), strings.ContainsRune(s, 'b'), strings.ContainsAny(t, "ab"), strings.IndexFunc(s, unicode.IsDigit), strings.Compare(s, t))
	},
	func(s, t string) string {
		return strings.Trim(s, ".-") + "|" + strings.TrimFunc(t, unicode.IsLetter) + "|" + strings.TrimLeft(s, "a") + strings.TrimRight(s, "a") + strings.TrimSpace(s)
	},
	func(s, t string) string {
		return strings.Join(strings.SplitN(s, ".", 2), "|") + strings.Join(strings.SplitAfter(t, "."), "|") + fmt.Sprint(strings.LastIndexByte(s, '.'))
	},
	func(s, t string) string { r := strings.NewReplacer("a", "1", ".", "__"); return r.Replace(s) },
	func(s, t string) string { r := strings.NewReplacer("ab", "1", "a", "2", "-", ""); return r.Replace(s) },
	func(s, t string) string {
		return fmt.Sprint(utf8.RuneCountInString(s), utf8.ValidString(t), []rune(s), string([]rune(t)))
	},
	func(s, t string) string {
		return fmt.Sprint(bytes.Equal([]byte(s), []byte(t)), bytes.HasPrefix([]byte(s), []byte("a")), bytes.IndexByte([]byte(s), '.'), bytes.Compare([]byte(s), []byte(t)), string(bytes.TrimSpace([]byte(s))), string(bytes.ToUpper([]byte(t))), bytes.Contains([]byte(s), []byte(t)))
	},
	func(s, t string) string {
		u, err := url.Parse("http://h/" + s + "#" + t)
		if err != nil {
			return "err"
		}
		return u.String() + u.Path + u.Fragment
	},
	func(s, t string) string { return url.PathEscape(s) + url.QueryEscape(t) },
	func(s, t string) string { v, err := url.ParseQuery(s); return fmt.Sprint(len(v), err, v.Get("a")) },
	func(s, t string) string {
		u, _ := url.Parse("http://h/a/b")
		r, err := u.Parse(s)
		if err != nil {
			return "err"
		}
		return r.String()
	},
	func(s, t string) string {
		tm := time.Unix(int64(len(s)), 0).UTC()
		return fmt.Sprint(tm.Before(time.Unix(2, 0)), tm.Add(time.Second).Unix(), tm.Equal(time.Unix(1, 0)), tm.IsZero(), tm.Sub(time.Unix(0, 0)))
	},
	func(s, t string) string {
		var o sync.Once
		n := 0
		for i := 0; i < 3; i++ {
			o.Do(func() { n++ })
		}
		var mu sync.Mutex
		mu.Lock()
		defer mu.Unlock()
		return fmt.Sprint(n)
	},
	func(s, t string) (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = "recovered"
			}
		}()
		if strings.HasPrefix(s, "a") {
			panic("x")
		}
		return string(s[len(t)])
	},
	func(s, t string) string {
		var arr [4]int
		for i := range s {
			arr[int(s[i])%4]++
		}
		return fmt.Sprint(arr)
	},
	func(s, t string) string {
	outer:
		for i := 0; i < len(s); i++ {
			for j := 0; j < len(t); j++ {
				switch {
				case s[i] == t[j]:
					continue outer
				case s[i] < 'b':
					break outer
				}
			}
			goto done
		}
		return "none"
	done:
		return "found"
	},
	func(s, t string) string {
		var x interface{} = s
		switch v := x.(type) {
		case fmt.Stringer:
			return v.String()
		case string, int:
			return fmt.Sprint("basic ", v)
		}
		return ""
	},
	func(s, t string) string { n := 0; fmt.Sscanf("12", "%d", &n); return fmt.Sprint(n) },
	func(s, t string) string {
		c := make(chan string, 2)
		c <- s
		c <- t
		close(c)
		r := ""
		for x := range c {
			r += x
		}
		return r
	},
	func(s, t string) string { r := make(chan string); go func() { r <- s + "!" }(); return <-r },
	func(s, t string) string {
		var wg sync.WaitGroup
		out := make([]string, 2)
		for i, x := range []string{s, t} {
			i, x := i, x
			wg.Add(1)
			go func() { defer wg.Done(); out[i] = strings.ToUpper(x) }()
		}
		wg.Wait()
		return strings.Join(out, "|")
	},
	func(s, t string) string {
		b := append([]byte(nil), s...)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	},
	func(s, t string) string {
		return fmt.Sprintln(s, len(t)) + fmt.Sprint([]byte(s)) + fmt.Sprint(map[string]int{"b": 1, "a": 2})
	},
	func(s, t string) string {
		pr, pw := io.Pipe()
		go func() { io.WriteString(pw, s); pw.Close() }()
		b, err := io.ReadAll(pr)
		return fmt.Sprint(string(b), err)
	},
	func(s, t string) string {
		f := strings.ToLower
		if len(s) > 1 {
			f = strings.ToUpper
		}
		return f(t)
	},
	func(s, t string) string {
		sr := io.NewSectionReader(strings.NewReader(s+"xyz"), 1, 2)
		b, err := io.ReadAll(sr)
		return fmt.Sprint(string(b), err)
	},
	func(s, t string) string {
		var b [3]byte
		n, err := io.ReadFull(strings.NewReader(s), b[:])
		m, err2 := io.ReadAtLeast(strings.NewReader(t), b[:], 1)
		return fmt.Sprint(n, err, m, err2)
	},
	func(s, t string) string {
		var b strings.Builder
		n, err := io.CopyN(&b, strings.NewReader(s), 2)
		return fmt.Sprint(n, err, b.String())
	},
	func(s, t string) string {
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		w.WriteString(s)
		w.WriteByte('!')
		w.Flush()
		l, err := b.ReadString('!')
		return fmt.Sprint(l, err)
	},
	func(s, t string) string {
		return fmt.Sprint(len(strings.TrimSuffix(strings.TrimPrefix(s, "a"), ".")), strings.ToTitle(t), strings.HasSuffix(s, t))
	},
	func(s, t string) string {
		fi := fs.FileMode(len(s)<<6) | fs.ModeDir
		return fi.String() + fi.Type().String() + fmt.Sprint(fi.IsRegular(), fi.Perm())
	},
	func(s, t string) string {
		return strconv.FormatInt(int64(len(s)), 8) + strconv.FormatBool(s == t) + string(strconv.AppendInt(nil, int64(len(t)), 10))
	},
	func(s, t string) string {
		return regexp.QuoteMeta(s) + fmt.Sprint(regexp.MustCompile(`\s*,\s*`).Split(s+" , "+t, -1))
	},
	func(s, t string) string { m, _ := path.Match(s, t); return fmt.Sprint(m) },
	func(s, t string) string {
		return fmt.Sprintf("%02d|%+d|%x|%o|%6.2f|%v", len(s), len(t), 255, 8, 1.5, time.Duration(len(s))*time.Second)
	},
	func(s, t string) string {
		return time.Unix(int64(len(s)*100000), 0).UTC().Format(time.RFC3339) + time.Unix(1600000000, 0).UTC().Truncate(time.Hour).String()
	},
	func(s, t string) string {
		d := errors.New(s)
		e := errors.Join(d, errors.New("b"))
		return fmt.Sprint(errors.Is(e, d), e)
	},
	func(s, t string) string {
		a := strings.Split(s, ".")
		b := append(a[:0:0], a...)
		copy(b, []string{t})
		return strings.Join(b, "|") + fmt.Sprint(len(a), cap(a[:1:1]))
	},
	func(s, t string) string {
		x := struct {
			key
			n int
		}{key{s, t}, 1}
		y := x
		y.a = "q"
		return fmt.Sprint(x == y, x.a, y.n, &x != &y)
	},
	func(s, t string) string {
		v := bytes.NewReader([]byte(s))
		b, _ := v.ReadByte()
		v.UnreadByte()
		n, _ := v.Seek(0, io.SeekEnd)
		return fmt.Sprint(b, n, v.Len(), v.Size())
	},
	func(s, t string) string {
		return fmt.Sprint(strings.IndexRune(s, 'é'), unicode.IsUpper('A'), strings.ToUpper("é"), utf8.RuneLen('é'))
	},
}

// Lib: one case on symbolic strings.
func Lib() {
	k := nd.Choose(len(cases))
	s := nd.From(nd.Choose(3), "ab.-1 ")
	t := nd.From(1, "a.")
	nd.Observe("case", fmt.Sprint(k))
	nd.Observe("r", cases[k](s, t))
	nd.Reach("end")
}
