// Package jsonm models encoding/json and the two YAML packages.  YAML is
// written as JSON, which is YAML too, and read as JSON: a harness gives JSON
// text wherever the code reads YAML.
package jsonm

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"

	"sigs.k8s.io/yaml"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

type node struct {
	k    byte // { [ " 0 t f n
	s    string
	raw  string
	keys []string
	kids []*node
}

type parser struct {
	b   string
	i   int
	err error
}

var errEnd = errors.New("unexpected end of JSON input")

func (p *parser) fail() *node {
	if p.err == nil {
		p.err = errors.New("invalid character in JSON input")
		if p.i >= len(p.b) {
			p.err = errEnd
		}
	}
	return nil
}

func (p *parser) ws() {
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.i++
	}
}

func (p *parser) lit(s string, k byte) *node {
	if len(p.b)-p.i < len(s) || p.b[p.i:p.i+len(s)] != s {
		return p.fail()
	}
	p.i += len(s)
	return &node{k: k, s: s}
}

func (p *parser) digits() bool {
	n := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > n
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *parser) str() (string, bool) {
	var out []byte
	p.i++
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c < 0x20 {
			return "", false
		}
		if c == '"' {
			p.i++
			return string(out), true
		}
		if c != '\\' {
			out = append(out, c)
			p.i++
			continue
		}
		p.i++
		if p.i >= len(p.b) {
			return "", false
		}
		c = p.b[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			out = append(out, c)
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			if len(p.b)-p.i < 4 {
				return "", false
			}
			r := 0
			for j := 0; j < 4; j++ {
				h := hexv(p.b[p.i+j])
				if h < 0 {
					return "", false
				}
				r = r*16 + h
			}
			p.i += 4
			out = append(out, string(rune(r))...)
		default:
			return "", false
		}
	}
	return "", false
}

func (p *parser) value() *node {
	p.ws()
	start := p.i
	n := p.value1()
	if p.err != nil {
		return nil
	}
	n.raw = p.b[start:p.i]
	return n
}

func (p *parser) value1() *node {
	if p.i >= len(p.b) {
		return p.fail()
	}
	switch c := p.b[p.i]; {
	case c == '{' || c == '[':
		n := &node{k: c}
		end := byte('}')
		if c == '[' {
			end = ']'
		}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == end {
			p.i++
			return n
		}
		for {
			p.ws()
			if c == '{' {
				if p.i >= len(p.b) || p.b[p.i] != '"' {
					return p.fail()
				}
				k, ok := p.str()
				if !ok {
					return p.fail()
				}
				p.ws()
				if p.i >= len(p.b) || p.b[p.i] != ':' {
					return p.fail()
				}
				p.i++
				n.keys = append(n.keys, k)
			}
			v := p.value()
			if p.err != nil {
				return nil
			}
			n.kids = append(n.kids, v)
			p.ws()
			if p.i >= len(p.b) {
				return p.fail()
			}
			if p.b[p.i] == end {
				p.i++
				return n
			}
			if p.b[p.i] != ',' {
				return p.fail()
			}
			p.i++
		}
	case c == '"':
		s, ok := p.str()
		if !ok {
			return p.fail()
		}
		return &node{k: '"', s: s}
	case c == 't':
		return p.lit("true", 't')
	case c == 'f':
		return p.lit("false", 'f')
	case c == 'n':
		return p.lit("null", 'n')
	case c == '-' || c >= '0' && c <= '9':
		st := p.i
		if c == '-' {
			p.i++
		}
		if p.i < len(p.b) && p.b[p.i] == '0' {
			p.i++
		} else if !p.digits() {
			return p.fail()
		}
		if p.i < len(p.b) && p.b[p.i] == '.' {
			p.i++
			if !p.digits() {
				return p.fail()
			}
		}
		if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
			p.i++
			if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
				p.i++
			}
			if !p.digits() {
				return p.fail()
			}
		}
		return &node{k: '0', s: p.b[st:p.i]}
	}
	return p.fail()
}

// fields

type field struct {
	name   string
	index  []int
	tagged bool
	omit   bool
	str    bool
}

func tagOf(tag, key string) (string, bool) {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		c := strings.Index(tag, ":\"")
		if c < 0 {
			return "", false
		}
		k := tag[:c]
		tag = tag[c+2:]
		e := strings.IndexByte(tag, '"')
		if e < 0 {
			return "", false
		}
		v := tag[:e]
		tag = tag[e+1:]
		if k == key {
			return v, true
		}
	}
	return "", false
}

type level struct {
	v     interface{} // a value of, or a pointer to, the struct
	index []int
}

// fieldsOf lists a struct's fields the way encoding/json sees them.
func fieldsOf(v interface{}) []field {
	var all []field
	cur := []level{{v, nil}}
	for len(cur) > 0 {
		var next []level
		var here []field
		for _, l := range cur {
			for i := 0; i < nd.SymRNum(l.v); i++ {
				name, tag, anon, exp := nd.SymRFieldInfo(l.v, i)
				idx := append(append([]int(nil), l.index...), i)
				jt, _ := tagOf(tag, "json")
				if jt == "-" {
					continue
				}
				parts := strings.Split(jt, ",")
				if anon && parts[0] == "" {
					sub := nd.SymRField(l.v, i)
					k := nd.SymRKind(sub)
					if k == int(reflect.Ptr) {
						k = nd.SymRElemKind(sub)
					}
					if k == int(reflect.Struct) {
						next = append(next, level{sub, idx})
						continue
					}
				}
				if !exp {
					continue
				}
				f := field{name: name, index: idx}
				if parts[0] != "" {
					f.name, f.tagged = parts[0], true
				}
				for _, o := range parts[1:] {
					f.omit = f.omit || o == "omitempty"
					f.str = f.str || o == "string"
				}
				here = append(here, f)
			}
		}
		// what is already there at a shallower depth dominates; at one depth a
		// single tagged field does, and anything else is ambiguous
		for i, f := range here {
			hidden := false
			for _, a := range all {
				hidden = hidden || a.name == f.name
			}
			for j, o := range here {
				if i != j && o.name == f.name && (o.tagged || !f.tagged) {
					hidden = true
				}
			}
			if !hidden {
				all = append(all, f)
			}
		}
		cur = next
	}
	// in order of the index sequence
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && indexLess(all[j].index, all[j-1].index); j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	return all
}

func indexLess(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// decoding

type decoding struct {
	strict bool
	saved  error
}

func (d *decoding) save(err error) {
	if d.saved == nil {
		d.saved = err
	}
}

func (d *decoding) typeErr(n *node, p interface{}) {
	d.save(errors.New("json: cannot unmarshal " + map[byte]string{'{': "object", '[': "array", '"': "string", '0': "number", 't': "bool", 'f': "bool", 'n': "null"}[n.k] + " into Go value of type " + nd.SymRType(p)))
}

func (d *decoding) into(n *node, p interface{}) {
	ek := reflect.Kind(nd.SymRElemKind(p))
	if ek == reflect.Ptr {
		if n.k == 'n' {
			nd.SymRZero(p)
			return
		}
		q := nd.SymRDeref(p)
		if nd.SymRIsNil(q) {
			q = nd.SymRNew(p)
		}
		d.into(n, q)
		return
	}
	if u, ok := p.(json.Unmarshaler); ok {
		if err := u.UnmarshalJSON([]byte(n.raw)); err != nil {
			d.save(err)
		}
		return
	}
	if n.k != 'n' {
		if u, ok := p.(encoding.TextUnmarshaler); ok {
			if n.k != '"' {
				d.typeErr(n, p)
			} else if err := u.UnmarshalText([]byte(n.s)); err != nil {
				d.save(err)
			}
			return
		}
	}
	if n.k == 'n' {
		switch ek {
		case reflect.Interface, reflect.Map, reflect.Slice:
			nd.SymRZero(p)
		}
		return
	}
	switch ek {
	case reflect.Interface:
		nd.SymRSet(p, generic(n))
	case reflect.Struct:
		if n.k != '{' {
			d.typeErr(n, p)
			return
		}
		fs := fieldsOf(p)
		for i, k := range n.keys {
			hit := -1
			for j := range fs {
				if fs[j].name == k {
					hit = j
					break
				}
			}
			for j := range fs {
				if hit < 0 && strings.EqualFold(fs[j].name, k) {
					hit = j
				}
			}
			if hit < 0 {
				if d.strict {
					d.save(errors.New("json: unknown field " + strconv.Quote(k)))
				}
				continue
			}
			q := p
			for _, x := range fs[hit].index {
				if reflect.Kind(nd.SymRElemKind(q)) == reflect.Ptr {
					if nd.SymRIsNil(nd.SymRDeref(q)) {
						nd.SymRNew(q)
					}
					q = nd.SymRDeref(q)
				}
				q = nd.SymRField(q, x)
			}
			d.into(n.kids[i], q)
		}
	case reflect.Map:
		if n.k != '{' {
			d.typeErr(n, p)
			return
		}
		if nd.SymRIsNil(nd.SymRDeref(p)) {
			nd.SymREmpty(p)
		}
		for i, k := range n.keys {
			e := nd.SymRElem(p)
			d.into(n.kids[i], e)
			nd.SymRMapSet(p, k, e)
		}
	case reflect.Slice:
		if n.k == '"' && reflect.Kind(nd.SymRElemKind(nd.SymRDeref(p))) == reflect.Uint8 {
			b, err := base64.StdEncoding.DecodeString(n.s)
			if err != nil {
				d.save(err)
				return
			}
			nd.SymRSet(p, b)
			return
		}
		if n.k != '[' {
			d.typeErr(n, p)
			return
		}
		nd.SymREmpty(p)
		for _, kid := range n.kids {
			d.into(kid, nd.SymRGrow(p))
		}
	case reflect.String:
		if n.k != '"' {
			d.typeErr(n, p)
			return
		}
		nd.SymRSet(p, n.s)
	case reflect.Bool:
		if n.k != 't' && n.k != 'f' {
			d.typeErr(n, p)
			return
		}
		nd.SymRSet(p, n.k == 't')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := map[reflect.Kind]int{reflect.Int: 64, reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Int64: 64}[ek]
		var v int64
		err := errors.New("no number")
		if n.k == '0' {
			v, err = strconv.ParseInt(n.s, 10, bits)
		}
		if err != nil {
			d.typeErr(n, p)
			return
		}
		nd.SymRSet(p, v)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := map[reflect.Kind]int{reflect.Uint: 64, reflect.Uint8: 8, reflect.Uint16: 16, reflect.Uint32: 32, reflect.Uint64: 64}[ek]
		var v uint64
		err := errors.New("no number")
		if n.k == '0' {
			v, err = strconv.ParseUint(n.s, 10, bits)
		}
		if err != nil {
			d.typeErr(n, p)
			return
		}
		nd.SymRSet(p, v)
	default:
		d.typeErr(n, p)
	}
}

func generic(n *node) interface{} {
	switch n.k {
	case '{':
		m := map[string]interface{}{}
		for i, k := range n.keys {
			m[k] = generic(n.kids[i])
		}
		return m
	case '[':
		s := []interface{}{}
		for _, kid := range n.kids {
			s = append(s, generic(kid))
		}
		return s
	case '"':
		return n.s
	case '0':
		f, _ := strconv.ParseFloat(n.s, 64)
		return f
	case 't':
		return true
	case 'f':
		return false
	}
	return nil
}

func parseAll(b string) (*node, error) {
	p := &parser{b: b}
	n := p.value()
	if p.err != nil {
		return nil, p.err
	}
	p.ws()
	if p.i < len(b) {
		return nil, errors.New("invalid character after top-level value")
	}
	return n, nil
}

//symgo:replace encoding/json.Unmarshal
func Unmarshal(data []byte, v interface{}) error {
	n, err := parseAll(string(data))
	if err != nil {
		return err
	}
	d := &decoding{}
	d.into(n, v)
	return d.saved
}

//symgo:replace encoding/json.Valid
func Valid(data []byte) bool {
	_, err := parseAll(string(data))
	return err == nil
}

// Decoder

type decState struct {
	d      *json.Decoder
	r      io.Reader
	read   bool
	p      parser
	strict bool
	toks   []json.Token
	err    error
}

var decs []*decState

func dec(d *json.Decoder) *decState {
	for _, s := range decs {
		if s.d == d {
			return s
		}
	}
	panic("a json.Decoder that was not made by NewDecoder")
}

//symgo:replace encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	s := &decState{d: new(json.Decoder), r: r}
	decs = append(decs, s)
	return s.d
}

//symgo:replace (*encoding/json.Decoder).DisallowUnknownFields
func DisallowUnknownFields(d *json.Decoder) { dec(d).strict = true }

func (s *decState) next() (*node, error) {
	if s.err != nil {
		return nil, s.err
	}
	if !s.read {
		b, err := io.ReadAll(s.r)
		if err != nil {
			return nil, err
		}
		s.p.b, s.read = string(b), true
	}
	s.p.ws()
	if s.p.i >= len(s.p.b) {
		return nil, io.EOF
	}
	n := s.p.value()
	if s.p.err != nil {
		s.err = s.p.err
		if s.err == errEnd {
			s.err = io.ErrUnexpectedEOF
		}
		return nil, s.err
	}
	return n, nil
}

//symgo:replace (*encoding/json.Decoder).Decode
func Decode(d *json.Decoder, v interface{}) error {
	s := dec(d)
	n, err := s.next()
	if err != nil {
		return err
	}
	// a pointer to an interface that holds a pointer stands for the latter
	if reflect.Kind(nd.SymRElemKind(v)) == reflect.Interface {
		if in := nd.SymRDeref(v); in != nil && reflect.Kind(nd.SymRKind(in)) == reflect.Ptr {
			v = in
		}
	}
	g := &decoding{strict: s.strict}
	g.into(n, v)
	return g.saved
}

//symgo:replace (*encoding/json.Decoder).More
func More(d *json.Decoder) bool {
	s := dec(d)
	if len(s.toks) > 0 {
		t, ok := s.toks[0].(json.Delim)
		return !ok || (t != '}' && t != ']')
	}
	s.p.ws()
	return !s.read || s.p.i < len(s.p.b)
}

func tokens(n *node) []json.Token {
	switch n.k {
	case '{', '[':
		r := []json.Token{json.Delim(n.k)}
		for i, kid := range n.kids {
			if n.k == '{' {
				r = append(r, n.keys[i])
			}
			r = append(r, tokens(kid)...)
		}
		return append(r, json.Delim(n.k+2))
	}
	return []json.Token{generic(n)}
}

//symgo:replace (*encoding/json.Decoder).Token
func Token(d *json.Decoder) (json.Token, error) {
	s := dec(d)
	if len(s.toks) == 0 {
		n, err := s.next()
		if err != nil {
			return nil, err
		}
		s.toks = tokens(n)
	}
	t := s.toks[0]
	s.toks = s.toks[1:]
	return t, nil
}

// encoding

func quote(s string, html bool) string {
	const hex = "0123456789abcdef"
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < 0x20 || html && (c == '<' || c == '>' || c == '&'):
			out = append(out, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
		default:
			out = append(out, c)
		}
	}
	return string(append(out, '"'))
}

type encoding_ struct {
	html bool
	yaml bool
	err  error
}

func (e *encoding_) value(v interface{}) string {
	k := reflect.Kind(nd.SymRKind(v))
	if v == nil || (k == reflect.Ptr || k == reflect.Map) && nd.SymRIsNil(v) {
		if k == reflect.Map && e.yaml {
			return "{}"
		}
		return "null"
	}
	if m, ok := v.(json.Marshaler); ok && !e.yaml {
		b, err := m.MarshalJSON()
		if err != nil && e.err == nil {
			e.err = err
		}
		return string(b)
	}
	if m, ok := v.(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		if err != nil && e.err == nil {
			e.err = err
		}
		return quote(string(b), e.html)
	}
	switch k {
	case reflect.Ptr:
		return e.value(nd.SymRDeref(v))
	case reflect.Struct:
		out := "{"
		if e.yaml {
			e.yamlFields(&out, v)
			return out + "}"
		}
		for _, f := range fieldsOf(v) {
			x := v
			for _, i := range f.index {
				if reflect.Kind(nd.SymRKind(x)) == reflect.Ptr {
					if nd.SymRIsNil(x) {
						x = nil
						break
					}
					x = nd.SymRDeref(x)
				}
				x = nd.SymRField(x, i)
			}
			if x == nil && len(f.index) > 1 {
				continue
			}
			if f.omit && empty(x) {
				continue
			}
			if len(out) > 1 {
				out += ","
			}
			out += quote(f.name, e.html) + ":" + e.value(x)
		}
		return out + "}"
	case reflect.Map:
		return e.mapping(v)
	case reflect.Slice, reflect.Array:
		if k == reflect.Slice && !e.yaml {
			if nd.SymRIsNil(v) {
				return "null"
			}
			if reflect.Kind(nd.SymRElemKind(v)) == reflect.Uint8 {
				return quote(base64.StdEncoding.EncodeToString(nd.SymRBytes(v)), e.html)
			}
		}
		out := "["
		for i := 0; i < nd.SymRNum(v); i++ {
			if i > 0 {
				out += ","
			}
			out += e.value(nd.SymRIndex(v, i))
		}
		return out + "]"
	case reflect.String:
		return quote(nd.SymRStr(v), e.html)
	case reflect.Bool:
		if nd.SymRBool(v) {
			return "true"
		}
		return "false"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return strconv.FormatInt(nd.SymRInt(v), 10)
	case reflect.Float64:
		return strconv.FormatFloat(nd.SymRFloat(v), 'g', -1, 64)
	}
	if e.err == nil {
		e.err = errors.New("json: unsupported type: " + nd.SymRType(v))
	}
	return "null"
}

func (e *encoding_) mapping(v interface{}) string {
	var keys []string
	var vals []interface{}
	for i := 0; i < nd.SymRNum(v); i++ {
		k, x := nd.SymRMapAt(v, i)
		ks := nd.SymRStr(k)
		at := 0
		for at < len(keys) && keys[at] < ks {
			at++
		}
		keys = append(keys, "")
		vals = append(vals, nil)
		copy(keys[at+1:], keys[at:])
		copy(vals[at+1:], vals[at:])
		keys[at], vals[at] = ks, x
	}
	out := "{"
	for i, k := range keys {
		if i > 0 {
			out += ","
		}
		out += quote(k, e.html) + ":" + e.value(vals[i])
	}
	return out + "}"
}

func empty(v interface{}) bool {
	switch reflect.Kind(nd.SymRKind(v)) {
	case reflect.Invalid:
		return true
	case reflect.Slice, reflect.Map, reflect.Array:
		return nd.SymRNum(v) == 0
	case reflect.Ptr:
		return nd.SymRIsNil(v)
	case reflect.String:
		return nd.SymRStr(v) == ""
	case reflect.Bool:
		return !nd.SymRBool(v)
	case reflect.Struct, reflect.Func:
		return false
	case reflect.Float64:
		return nd.SymRFloat(v) == 0
	}
	return nd.SymRInt(v) == 0
}

//symgo:replace encoding/json.Marshal
func Marshal(v interface{}) ([]byte, error) {
	e := &encoding_{html: true}
	s := e.value(v)
	if e.err != nil {
		return nil, e.err
	}
	return []byte(s), nil
}

type encState struct {
	e    *json.Encoder
	w    io.Writer
	html bool
}

var encs []*encState

func enc(e *json.Encoder) *encState {
	for _, s := range encs {
		if s.e == e {
			return s
		}
	}
	panic("a json.Encoder that was not made by NewEncoder")
}

//symgo:replace encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	s := &encState{e: new(json.Encoder), w: w, html: true}
	encs = append(encs, s)
	return s.e
}

//symgo:replace (*encoding/json.Encoder).SetEscapeHTML
func SetEscapeHTML(e *json.Encoder, on bool) { enc(e).html = on }

//symgo:replace (*encoding/json.Encoder).Encode
func Encode(j *json.Encoder, v interface{}) error {
	s := enc(j)
	e := &encoding_{html: s.html}
	t := e.value(v)
	if e.err != nil {
		return e.err
	}
	_, err := io.WriteString(s.w, t+"\n")
	return err
}

// YAML

func (e *encoding_) yamlFields(out *string, v interface{}) {
	for i := 0; i < nd.SymRNum(v); i++ {
		name, tag, _, exp := nd.SymRFieldInfo(v, i)
		if !exp {
			continue
		}
		t, ok := tagOf(tag, "yaml")
		if !ok && tag != "" && !strings.Contains(tag, ":") {
			t = tag
		}
		if t == "-" {
			continue
		}
		x := nd.SymRField(v, i)
		parts := strings.Split(t, ",")
		omit, inline := false, false
		for _, o := range parts[1:] {
			omit = omit || o == "omitempty"
			inline = inline || o == "inline"
		}
		if inline {
			e.yamlFields(out, x)
			continue
		}
		if omit && empty(x) {
			continue
		}
		key := parts[0]
		if key == "" {
			key = strings.ToLower(name)
		}
		if len(*out) > 1 {
			*out += ","
		}
		*out += quote(key, false) + ": " + e.value(x)
	}
}

//symgo:replace gopkg.in/yaml.v2.Marshal
func YMarshal(v interface{}) ([]byte, error) {
	e := &encoding_{yaml: true}
	s := e.value(v)
	if e.err != nil {
		return nil, e.err
	}
	return []byte(s + "\n"), nil
}

//symgo:replace sigs.k8s.io/yaml.Marshal
func KMarshal(v interface{}) ([]byte, error) {
	b, err := Marshal(v)
	return append(b, '\n'), err
}

//symgo:replace sigs.k8s.io/yaml.Unmarshal
func KUnmarshal(y []byte, o interface{}, opts ...yaml.JSONOpt) error {
	if strings.TrimSpace(string(y)) == "" {
		y = []byte("null")
	}
	if _, err := parseAll(string(y)); err != nil {
		return errors.New("error converting YAML to JSON: " + err.Error())
	}
	d := NewDecoder(bytes.NewReader(y))
	for _, opt := range opts {
		d = opt(d)
	}
	if err := Decode(d, o); err != nil {
		return errors.New("error unmarshaling JSON: " + err.Error())
	}
	return nil
}

//symgo:replace sigs.k8s.io/yaml.UnmarshalStrict
func KUnmarshalStrict(y []byte, o interface{}, opts ...yaml.JSONOpt) error {
	return KUnmarshal(y, o, append(append([]yaml.JSONOpt(nil), opts...), yaml.DisallowUnknownFields)...)
}
