package repoh

import (
	"context"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

// FetchBig: a file of any size, complete, cut, longer or with one byte changed.
func FetchBig() {
	b := nd.Big(nd.BigSize())
	good := append([]byte(nil), b...)
	switch nd.Choose(4) {
	case 0:
		i := []int{0, len(b) / 2, len(b) - 1, 512, 4096, 32768, 510}[nd.Choose(7)]
		nd.Assume(i < len(b))
		x := nd.Byte()
		nd.Assume(x != 0)
		b[i] ^= x
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, nd.Byte())
	}
	s := &server{other: resp{status: 200, body: b}}
	alg := algs[nd.Choose(2)]
	l := link(s, "href=\"http://o/f#"+alg+"="+sum(alg, good)+"\"")
	got, err := l.Get(context.Background())
	if string(b) != string(good) {
		nd.Assert(err != nil && len(got) == 0, "a file is returned although its checksum or its transfer is bad")
		nd.Reach("bad")
		return
	}
	nd.Assert(err == nil && string(got) == string(b), "a good file is refused or other content is returned")
	nd.Reach("good")
}
