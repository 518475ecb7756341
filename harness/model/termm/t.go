// Package termm models golang.org/x/term: the output is a pipe.
package termm

import "errors"

//symgo:replace golang.org/x/term.GetSize
func GetSize(fd int) (int, int, error) { return 0, 0, errors.New("not a terminal") }

//symgo:replace golang.org/x/term.IsTerminal
func IsTerminal(fd int) bool { return false }
