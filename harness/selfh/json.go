package selfh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	yaml2 "gopkg.in/yaml.v2"
	"sigs.k8s.io/yaml"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type outer struct {
	python.Platform `yaml:",inline"`
	PyCompile       []string
}

type opt struct {
	A string            `json:"a,omitempty"`
	B *int              `json:"b"`
	C map[string]string `json:"c,omitempty"`
	D []byte
	E interface{}
	f int
	G bool `json:"-"`
	H []opt
}

var jcases = []func(s string) string{
	func(s string) string {
		var d opt
		err := json.Unmarshal([]byte(`{"A": "`+s+`", "b": 12, "c": {"x": "y", "k": "`+s+`"}, "d": [1,2], "E": [true, null, {"q": "r"}], "h": [{"a": "z"}, {}], "zz": 1}`), &d)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(d.A, *d.B, d.C["k"], len(d.C), d.D, len(d.H), d.H[0].A)
	},
	func(s string) string {
		n := 3
		b, err := json.Marshal(opt{A: s, B: &n, C: map[string]string{"b": s, "a": "<"}, D: []byte(s), E: []interface{}{s, true, nil}, H: []opt{{}}})
		return string(b) + fmt.Sprint(err)
	},
	func(s string) string {
		b, err := json.Marshal(direct_url.DirectURL{URL: s, VCSInfo: &direct_url.VCSInfo{VCS: "git", CommitID: s}})
		return string(b) + fmt.Sprint(err)
	},
	func(s string) string {
		d := json.NewDecoder(bytes.NewReader([]byte(`{"a": "` + s + `", "b": [1, true, null], "c": {}} "x"`)))
		r := ""
		for {
			t, err := d.Token()
			if err != nil {
				return r + fmt.Sprint(errors.Is(err, io.EOF))
			}
			r += fmt.Sprint(t, ";")
		}
	},
	func(s string) string {
		var o outer
		err := yaml.Unmarshal([]byte(`{"ConsoleShebang": "/x", "scheme": {"purelib": "/`+s+`"}, "UID": 5, "PyCompile": ["a", "b"], "MagicNumber": [1, 2], "Tags": ["py3-none-any"], "VersionInfo": {"major": 3, "releaselevel": "final"}}`), &o, yaml.DisallowUnknownFields)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(o.ConsoleShebang, o.Scheme.PureLib, o.UID, o.PyCompile, o.MagicNumber, o.Tags, o.VersionInfo.Major, o.Platform.PyCompile == nil)
	},
	func(s string) string {
		var o outer
		err := yaml.Unmarshal([]byte(`{"ConsoleShebang`+s+`": "/x"}`), &o, yaml.DisallowUnknownFields)
		return fmt.Sprint(err != nil)
	},
	func(s string) string {
		o := outer{PyCompile: []string{"x", s}}
		o.MagicNumber = []byte{1, 200}
		o.Tags = pep425.Installer{{Python: "py3", ABI: "none", Platform: "any"}}
		o.VersionInfo = &python.VersionInfo{Major: 3, ReleaseLevel: "final"}
		o.Scheme.Data = "/" + s
		o.UID = 7
		b, err := yaml2.Marshal(o)
		if err != nil {
			return "error"
		}
		var p outer
		if err := yaml.Unmarshal(b, &p, yaml.DisallowUnknownFields); err != nil {
			return "error2" + err.Error()
		}
		return fmt.Sprint(p.PyCompile, p.MagicNumber, p.Tags, p.VersionInfo.Major, p.Scheme.Data, p.UID, p.ConsoleShebang == "")
	},
	func(s string) string {
		var x struct{ A int }
		err := json.Unmarshal([]byte(`{"a": "`+s+`"}`), &x)
		return fmt.Sprint(err != nil)
	},
	func(s string) string { return fmt.Sprint(json.Valid([]byte(s))) },
}

// JSON: the models of the marshalling packages.
func JSON() {
	k := nd.Choose(len(jcases))
	s := nd.From(nd.Choose(3), "ab1}")
	nd.Observe("case", fmt.Sprint(k))
	nd.Observe("r", jcases[k](s))
	nd.Reach("end")
}
