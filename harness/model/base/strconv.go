package base

import "strconv"

// ParseUint and ParseInt: the library's algorithm, with the per-digit overflow
// tests left out where they cannot succeed (up to 18 decimal digits), which is
// the shortcut strconv.Atoi itself takes.

func decimal18(s string) (uint64, bool) {
	if len(s) == 0 || len(s) > 18 {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		d := s[i] - '0'
		if d > 9 {
			return 0, false
		}
		n = n*10 + uint64(d)
	}
	return n, true
}

//symgo:replace strconv.ParseUint
func ParseUint(s string, base int, bitSize int) (uint64, error) {
	bits := bitSize
	if bits == 0 {
		bits = 64
	}
	if base == 10 && bits > 0 && bits <= 64 {
		if n, ok := decimal18(s); ok {
			if bits < 64 && n > uint64(1)<<uint(bits)-1 {
				return uint64(1)<<uint(bits) - 1, &strconv.NumError{Func: "ParseUint", Num: s, Err: strconv.ErrRange}
			}
			return n, nil
		}
	}
	return parseUintSlow(s, base, bitSize)
}

func lower(c byte) byte { return c | ('x' - 'X') }

func parseUintSlow(s string, base int, bitSize int) (uint64, error) {
	const fn = "ParseUint"
	if s == "" {
		return 0, &strconv.NumError{Func: fn, Num: s, Err: strconv.ErrSyntax}
	}
	base0 := base == 0
	s0 := s
	if base == 0 {
		base = 10
		if s[0] == '0' {
			switch {
			case len(s) >= 3 && lower(s[1]) == 'b':
				base = 2
				s = s[2:]
			case len(s) >= 3 && lower(s[1]) == 'o':
				base = 8
				s = s[2:]
			case len(s) >= 3 && lower(s[1]) == 'x':
				base = 16
				s = s[2:]
			default:
				base = 8
				s = s[1:]
			}
		}
	}
	if bitSize == 0 {
		bitSize = 64
	}
	cutoff := (1<<64-1)/uint64(base) + 1
	maxVal := uint64(1)<<uint(bitSize) - 1
	var n uint64
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d byte
		switch {
		case c == '_' && base0:
			continue // placement of underscores is not checked here
		case '0' <= c && c <= '9':
			d = c - '0'
		case 'a' <= lower(c) && lower(c) <= 'z':
			d = lower(c) - 'a' + 10
		default:
			return 0, &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrSyntax}
		}
		if d >= byte(base) {
			return 0, &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrSyntax}
		}
		if n >= cutoff {
			return maxVal, &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrRange}
		}
		n *= uint64(base)
		n1 := n + uint64(d)
		if n1 < n || n1 > maxVal {
			return maxVal, &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrRange}
		}
		n = n1
	}
	return n, nil
}

//symgo:replace strconv.ParseInt
func ParseInt(s string, base int, bitSize int) (int64, error) {
	const fn = "ParseInt"
	if s == "" {
		return 0, &strconv.NumError{Func: fn, Num: s, Err: strconv.ErrSyntax}
	}
	s0 := s
	neg := false
	if s[0] == '+' {
		s = s[1:]
	} else if s[0] == '-' {
		neg = true
		s = s[1:]
	}
	if base == 10 && (bitSize == 0 || bitSize == 64) {
		if n, ok := decimal18(s); ok {
			if neg {
				return -int64(n), nil
			}
			return int64(n), nil
		}
	}
	un, err := ParseUint(s, base, bitSize)
	if err != nil {
		ne := err.(*strconv.NumError)
		if ne.Err != strconv.ErrRange {
			return 0, &strconv.NumError{Func: fn, Num: s0, Err: ne.Err}
		}
	}
	if bitSize == 0 {
		bitSize = 64
	}
	cutoff := uint64(1) << uint(bitSize-1)
	if !neg && un >= cutoff {
		return int64(cutoff - 1), &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrRange}
	}
	if neg && un > cutoff {
		return -int64(cutoff), &strconv.NumError{Func: fn, Num: s0, Err: strconv.ErrRange}
	}
	n := int64(un)
	if neg {
		n = -n
	}
	return n, nil
}
