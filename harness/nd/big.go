package nd

// Big is n bytes, no two neighbourhoods alike; the first, the last and one chosen among the given positions are symbolic.
func Big(n int, at ...int) []byte {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 1
	}
	if n > 0 {
		b[0] = Byte()
		b[n-1] = Byte()
	}
	if len(at) > 0 {
		if k := at[Choose(len(at))]; k < n {
			b[k] = Byte()
		}
	}
	return b
}

// BigSize is a size about a usual buffer or block size.
func BigSize() int {
	s := []int{511, 512, 513, 4095, 4097, 32767, 33001}
	return s[Choose(len(s))]
}
