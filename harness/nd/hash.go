package nd

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
)

func SymHash(alg string, data []byte) []byte {
	switch alg {
	case "md5":
		x := md5.Sum(data)
		return x[:]
	case "sha1":
		x := sha1.Sum(data)
		return x[:]
	case "sha224":
		x := sha256.Sum224(data)
		return x[:]
	case "sha256":
		x := sha256.Sum256(data)
		return x[:]
	case "sha384":
		x := sha512.Sum384(data)
		return x[:]
	case "sha512":
		x := sha512.Sum512(data)
		return x[:]
	}
	panic("unknown hash " + alg)
}
