// Package exitm makes os.Exit observable and abbreviates help texts.
package exitm

import (
	"io"

	"github.com/datawire/ocibuild/zz_verif/execw"
)

//symgo:replace os.Exit
func ExitWith(code int) { panic(execw.Exit(code)) }

//symgo:replace github.com/spf13/cobra.tmpl
func tmpl(w io.Writer, text string, data interface{}) error {
	_, err := w.Write([]byte("Usage: help text\n"))
	return err
}
