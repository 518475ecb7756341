// Package pyh checks the Python compatibility helpers.
package pyh

import (
	"io/fs"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// goTypes pairs file types.
var goTypes = []struct {
	py python.StatMode
	g  fs.FileMode
	c  byte
}{
	{0o100000, 0, '-'},
	{0o040000, fs.ModeDir, 'd'},
	{0o120000, fs.ModeSymlink, 'l'},
	{0o140000, fs.ModeSocket, 's'},
	{0o060000, fs.ModeDevice, 'b'},
	{0o020000, fs.ModeDevice | fs.ModeCharDevice, 'c'},
	{0o010000, fs.ModeNamedPipe, 'p'},
}

// ToGo: all 2^16 modes.
func ToGo() {
	m := python.StatMode(nd.SymU16())
	g := m.ToGo()
	nd.Assert(g.Perm() == fs.FileMode(m&0o777), "the permissions change")
	nd.Assert((g&fs.ModeSetuid != 0) == (m&0o4000 != 0), "setuid changes")
	nd.Assert((g&fs.ModeSetgid != 0) == (m&0o2000 != 0), "setgid changes")
	nd.Assert((g&fs.ModeSticky != 0) == (m&0o1000 != 0), "the sticky bit changes")
	nd.Assert(g&^(fs.ModePerm|fs.ModeType|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) == 0, "the result has other bits")
	known := false
	for _, t := range goTypes {
		is := m&0o170000 == t.py
		known = known || is
		nd.Assert(is == (g&fs.ModeType == t.g), "the file type changes")
	}
	nd.Assert(known == (g&fs.ModeIrregular == 0), "an unknown type is not irregular")
	back := python.ModeFromGo(g)
	nd.Assert(!known || back == m, "a mode does not survive the conversion")
	nd.Assert(back&0o7777 == m&0o7777, "permissions do not survive the conversion")
	nd.Assert(m.IsDir() == (m&0o170000 == 0o040000), "IsDir is wrong")
	nd.Assert(m.IsRegular() == (m&0o170000 == 0o100000), "IsRegular is wrong")
	nd.Reach("end")
}

// FromGo: all 2^32 modes.
func FromGo() {
	g := fs.FileMode(nd.SymU32())
	m := python.ModeFromGo(g)
	nd.Assert(m&0o777 == python.StatMode(g&0o777), "the permissions change")
	nd.Assert((g&fs.ModeSetuid != 0) == (m&0o4000 != 0), "setuid changes")
	nd.Assert((g&fs.ModeSetgid != 0) == (m&0o2000 != 0), "setgid changes")
	nd.Assert((g&fs.ModeSticky != 0) == (m&0o1000 != 0), "the sticky bit changes")
	known := false
	for _, t := range goTypes {
		is := g&fs.ModeType == t.g
		known = known || is
		nd.Assert(is == (m&0o170000 == t.py), "the file type changes")
	}
	kept := fs.ModePerm | fs.ModeType | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky
	if known {
		nd.Assert(m.ToGo() == g&kept, "a mode does not survive the conversion")
	} else {
		nd.Assert(m.ToGo()&fs.ModeType == fs.ModeIrregular, "an unknown type is not irregular")
	}
	nd.Reach("end")
}

// Text: all 2^16 modes.
func Text() {
	m := nd.SymU16()
	s := python.StatMode(m).String()
	nd.Assert(len(s) == 10, "the text does not have ten characters")
	typ := byte('?')
	for _, t := range goTypes {
		if m&0o170000 == uint16(t.py) {
			typ = t.c
		}
	}
	if m&0o170000 == 0o160000 {
		typ = 'w'
	}
	nd.Assert(s[0] == typ, "the type letter is wrong")
	for i := 0; i < 9; i++ {
		set := m>>(8-i)&1 != 0
		want := byte('-')
		if set {
			want = "rwx"[i%3]
		}
		if i%3 == 2 {
			special := m>>(11-i/3)&1 != 0
			if special {
				want = "SST"[i/3]
				if set {
					want = "sst"[i/3]
				}
			}
		}
		nd.Assert(s[1+i] == want, "a permission letter is wrong")
	}
	nd.Reach("end")
}

// Attrs: all 2^32 attribute words.
func Attrs() {
	raw := nd.SymU32()
	a := python.ParseZIPExternalAttributes(raw)
	nd.Assert(a.Raw() == raw, "an attribute word does not survive the conversion")
	nd.Assert(a.UNIX == python.StatMode(raw>>16), "the Unix mode is wrong")
	nd.Assert(a.MSDOS == python.DOSAttribute(raw&0xff), "the DOS attributes are wrong")
	nd.Assert(a.Unused == uint8(raw>>8&0xff), "the remaining byte is wrong")
	b := python.ZIPExternalAttributes{UNIX: python.StatMode(nd.SymU16()), Unused: nd.SymU8(), MSDOS: python.DOSAttribute(nd.SymU8())}
	nd.Assert(python.ParseZIPExternalAttributes(b.Raw()) == b, "an attribute structure does not survive the conversion")
	fa := nd.SymU32()
	dos := python.StatFileAttribute(fa).ToDOS()
	nd.Assert(uint32(dos) == fa&0x37, "the DOS part of Windows attributes is wrong")
	nd.Reach("end")
}

// Consts: the constants have the documented values.
func Consts() {
	want := []struct {
		a python.StatFileAttribute
		v uint32
	}{
		{python.FileAttributeReadonly, 0x1}, {python.FileAttributeHidden, 0x2}, {python.FileAttributeSystem, 0x4},
		{python.FileAttributeDirectory, 0x10}, {python.FileAttributeArchive, 0x20}, {python.FileAttributeDevice, 0x40},
		{python.FileAttributeNormal, 0x80}, {python.FileAttributeTemporary, 0x100}, {python.FileAttributeSparseFile, 0x200},
		{python.FileAttributeReparsePoint, 0x400}, {python.FileAttributeCompressed, 0x800}, {python.FileAttributeOffline, 0x1000},
		{python.FileAttributeNotContentIndexed, 0x2000}, {python.FileAttributeEncrypted, 0x4000}, {python.FileAttributeIntegrityStream, 0x8000},
		{python.FileAttributeVirtual, 0x10000}, {python.FileAttributeNoScrubData, 0x20000}, {python.FileAttributeRecallOnOpen, 0x40000},
		{python.FileAttributeRecallOnDataAccess, 0x400000},
	}
	x := nd.SymU32()
	for _, w := range want {
		nd.Assert((python.StatFileAttribute(x)&w.a != 0) == (x&w.v != 0), "an attribute constant does not have its Windows value")
	}
	pw := []struct{ a, v python.StatMode }{
		{python.ModeFmt, 0o170000}, {python.ModePerm, 0o7777}, {python.ModePermSetUID, 0o4000}, {python.ModePermSetGID, 0o2000}, {python.ModePermSticky, 0o1000},
		{python.ModePermUsrR, 0o400}, {python.ModePermUsrW, 0o200}, {python.ModePermUsrX, 0o100}, {python.ModePermGrpR, 0o40}, {python.ModePermGrpW, 0o20},
		{python.ModePermGrpX, 0o10}, {python.ModePermOthR, 4}, {python.ModePermOthW, 2}, {python.ModePermOthX, 1},
	}
	y := python.StatMode(nd.SymU16())
	for _, w := range pw {
		nd.Assert(y&w.a == y&w.v, "a mode constant does not have its value")
	}
	nd.Reach("end")
}
