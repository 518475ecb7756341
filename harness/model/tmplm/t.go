// Package tmplm models text/template for templates that only substitute fields.
package tmplm

import (
	"errors"
	"io"
	"strings"
	"text/template"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

type tmpl struct{ text string }

var tmpls = map[*template.Template]*tmpl{}

//symgo:replace text/template.New
func New(name string) *template.Template {
	t := new(template.Template)
	tmpls[t] = &tmpl{}
	return t
}

//symgo:replace (*text/template.Template).Parse
func Parse(t *template.Template, text string) (*template.Template, error) {
	tmpls[t].text = text
	return t, nil
}

//symgo:replace text/template.Must
func Must(t *template.Template, err error) *template.Template {
	if err != nil {
		panic(err)
	}
	return t
}

//symgo:replace (*text/template.Template).Option
func Option(t *template.Template, opt ...string) *template.Template { return t }

//symgo:replace (*text/template.Template).Execute
func Execute(t *template.Template, w io.Writer, data interface{}) error {
	s := tmpls[t].text
	out := ""
	for {
		i := strings.Index(s, "{{")
		if i < 0 {
			out += s
			break
		}
		j := strings.Index(s, "}}")
		if j < i {
			return errors.New("template: malformed")
		}
		out += s[:i]
		act := s[i+2 : j]
		s = s[j+2:]
		if strings.HasPrefix(act, "- ") {
			act = act[1:]
			out = strings.TrimRight(out, " \t\r\n")
		}
		if strings.HasSuffix(act, " -") {
			act = act[:len(act)-1]
			s = strings.TrimLeft(s, " \t\r\n")
		}
		act = strings.Trim(act, " \t")
		if len(act) < 2 || act[0] != '.' || strings.ContainsAny(act[1:], " .|()\"$") {
			nd.SymUnsupported("template action " + act)
		}
		v, ok := nd.SymField(data, act[1:])
		if !ok {
			out += "<no value>"
			continue
		}
		out += v
	}
	_, err := w.Write([]byte(out))
	return err
}
