package execw

import (
	"os"
	"syscall"
)

// Pipe makes a named pipe that gives b to whoever reads it first, and nothing afterwards.
func Pipe(p string, b []byte) bool {
	if syscall.Mkfifo(p, 0o644) != nil {
		return false
	}
	go func() {
		for {
			f, err := os.OpenFile(p, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			_, _ = f.Write(b)
			b = nil
			_ = f.Close()
		}
	}()
	return true
}
