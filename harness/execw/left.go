package execw

import "os"

// OpenFiles is the number of descriptors that are open.
func OpenFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(d)
}

// TempFiles is the number of things in the directory for temporary files.
func TempFiles() int {
	d, err := os.ReadDir(os.TempDir())
	if err != nil {
		panic(err)
	}
	return len(d)
}
