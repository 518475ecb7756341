// Package tickm models a clock that advances by a millisecond between readings.
package tickm

import "time"

var last int64 = 1600000000000000000

//symgo:replace time.Now
func Now() time.Time {
	last += 1000000
	return time.Unix(0, last)
}
