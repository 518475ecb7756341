// Package base holds environment models interpreted by the symbolic executor in
// place of library functions that rely on reflection, assembly or the OS.
// Native replay never uses them.
package base

import (
	"errors"
	"fmt"
	"hash"
	"io"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

//symgo:replace fmt.Errorf
func Errorf(format string, a ...interface{}) error {
	s := fmt.Sprintf(format, a...)
	var wrapped []error
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(a) {
			if e, ok := a[ai].(error); ok {
				wrapped = append(wrapped, e)
			}
		}
		ai++
	}
	switch len(wrapped) {
	case 0:
		return errors.New(s)
	case 1:
		return &wrapError{s, wrapped[0]}
	}
	return &wrapErrors{s, wrapped}
}

//symgo:replace fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

//symgo:replace fmt.Fprint
func Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprint(a...)))
}

//symgo:replace fmt.Fprintln
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintln(a...)))
}

type idealHash struct {
	alg   string
	size  int
	block int
	buf   []byte
}

func (h *idealHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *idealHash) Sum(b []byte) []byte         { return append(b, nd.SymHash(h.alg, h.buf)...) }
func (h *idealHash) Reset()                      { h.buf = nil }
func (h *idealHash) Size() int                   { return h.size }
func (h *idealHash) BlockSize() int              { return h.block }

//symgo:replace crypto/sha256.New
func SHA256() hash.Hash { return &idealHash{"sha256", 32, 64, nil} }

//symgo:replace crypto/sha256.New224
func SHA224() hash.Hash { return &idealHash{"sha224", 28, 64, nil} }

//symgo:replace crypto/sha512.New
func SHA512() hash.Hash { return &idealHash{"sha512", 64, 128, nil} }

//symgo:replace crypto/sha512.New384
func SHA384() hash.Hash { return &idealHash{"sha384", 48, 128, nil} }

//symgo:replace crypto/sha1.New
func SHA1() hash.Hash { return &idealHash{"sha1", 20, 64, nil} }

//symgo:replace crypto/md5.New
func MD5() hash.Hash { return &idealHash{"md5", 16, 64, nil} }

//symgo:replace crypto/sha256.Sum256
func Sum256(data []byte) (r [32]byte) {
	copy(r[:], nd.SymHash("sha256", data))
	return r
}

// ---- process environment ----

var env = map[string]string{}

//symgo:replace os.Getenv
func Getenv(k string) string { return env[k] }

//symgo:replace os.LookupEnv
func LookupEnv(k string) (string, bool) { v, ok := env[k]; return v, ok }

//symgo:replace os.Setenv
func Setenv(k, v string) error { env[k] = v; return nil }

//symgo:replace os.Environ
func Environ() []string {
	var r []string
	for k, v := range env {
		r = append(r, k+"="+v)
	}
	return r
}

//symgo:replace os.Unsetenv
func Unsetenv(k string) error { delete(env, k); return nil }
