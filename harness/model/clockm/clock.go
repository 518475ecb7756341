// Package clockm models a clock that shows any times, never going backwards.
package clockm

import (
	"time"

	"github.com/datawire/ocibuild/zz_verif/nd"
)

var last int64

//symgo:replace time.Now
func Now() time.Time {
	last += int64(nd.SymHidden() >> 2)
	return time.Unix(last, 12345)
}
