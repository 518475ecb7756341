// Package execw lets a harness stand in for the programs the code under check
// runs.  Natively the harness installs real scripts instead.
package execw

// Hook runs a program under the symbolic executor.
var Hook func(path string, args, env []string) error

// Proc runs a program under the symbolic executor, with its input and output.
// It is called when the program is waited for.
var Proc func(path string, args, env []string, stdin []byte) (stdout, stderr []byte, code int)

// Env looks a variable up the way a started program sees it: the last one wins.
func Env(env []string, k string) string {
	r := ""
	for _, e := range env {
		if len(e) > len(k) && e[:len(k)+1] == k+"=" {
			r = e[len(k)+1:]
		}
	}
	return r
}

// Exit is what os.Exit panics with under the symbolic executor.
type Exit int
