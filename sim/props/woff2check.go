package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/andybalholm/brotli"
)

var woff2Tags = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ", "VORG", "EBDT", "EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT", "VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB", "EBSC", "JSTF", "MATH", "CBDT", "CBLC", "COLR", "CPAL", "SVG ", "sbix", "acnt", "avar", "bdat", "bloc", "bsln", "cvar", "fdsc", "feat", "fmtx", "fvar", "gvar", "hsty", "just", "lcar", "mort", "morx", "opbd", "prop", "trak", "Zapf", "Silf", "Glat", "Gloc", "Feat", "Sill"}

// CheckWOFF2 checks the container of a WOFF2 file with one font as its specification describes it.
func CheckWOFF2(b []byte) (class, msg string) {
	bad := func(c, f string, a ...any) (string, string) { return "WOFF2 " + c, fmt.Sprintf(f, a...) }
	if len(b) < 48 || string(b[:4]) != "wOF2" {
		return bad("header", "no WOFF2 header")
	}
	if int(be32(b[8:])) != len(b) {
		return bad("header", "the header says %d bytes, the file has %d", be32(b[8:]), len(b))
	}
	n := int(be16(b[12:]))
	if n == 0 || be16(b[14:]) != 0 {
		return bad("header", "%d tables, reserved field %d", n, be16(b[14:]))
	}
	for i := 28; i < 48; i += 4 {
		if be32(b[i:]) != 0 {
			return bad("header", "metadata or private data that is not there is announced")
		}
	}
	pos := 48
	num := func() (uint32, bool) {
		v := uint32(0)
		for i := 0; i < 5; i++ {
			if pos >= len(b) {
				return 0, false
			}
			c := b[pos]
			pos++
			if i == 0 && c == 0x80 || v&0xFE000000 != 0 {
				return 0, false
			}
			v = v<<7 | uint32(c&0x7F)
			if c&0x80 == 0 {
				return v, true
			}
		}
		return 0, false
	}
	seen := map[string]bool{}
	total, stream := 12+16*n, 0
	glyfVersion := -1
	for i := 0; i < n; i++ {
		if pos >= len(b) {
			return bad("directory", "entry %d lies beyond the file", i)
		}
		fl := b[pos]
		pos++
		tag := ""
		if k := int(fl & 0x3F); k < 63 {
			tag = woff2Tags[k]
		} else {
			if pos+4 > len(b) {
				return bad("directory", "entry %d lies beyond the file", i)
			}
			tag = string(b[pos : pos+4])
			pos += 4
		}
		v := int(fl >> 6)
		if seen[tag] {
			return bad("directory", "table %q is there twice", tag)
		}
		seen[tag] = true
		orig, ok := num()
		if !ok {
			return bad("directory", "the length of %q is malformed", tag)
		}
		length := orig
		if (tag == "glyf" || tag == "loca") && v != 3 || tag != "glyf" && tag != "loca" && v != 0 {
			if length, ok = num(); !ok {
				return bad("directory", "the transformed length of %q is malformed", tag)
			}
			switch {
			case tag == "loca" && length != 0:
				return bad("directory", "the transformed length of loca is %d", length)
			case (tag == "glyf" || tag == "loca") && v != 0, tag == "hmtx" && v != 1, tag != "glyf" && tag != "loca" && tag != "hmtx":
				return bad("directory", "table %q has transformation %d", tag, v)
			case tag == "hmtx" && glyfVersion != 0 && seen["glyf"]:
				return bad("directory", "hmtx is transformed while glyf is not")
			}
		}
		if tag == "glyf" {
			glyfVersion = v
		}
		if tag == "loca" && (!seen["glyf"] || glyfVersion != v) {
			return bad("directory", "loca does not follow glyf, or is transformed otherwise")
		}
		if tag == "DSIG" {
			return bad("directory", "the signature, which can't be valid, is still there")
		}
		total += (int(orig) + 3) &^ 3
		stream += int(length)
	}
	if int(be32(b[16:])) != total {
		return bad("size", "the header says that the font takes %d bytes, its tables take %d", be32(b[16:]), total)
	}
	comp := int(be32(b[20:]))
	if pos+comp > len(b) || len(b) != (pos+comp+3)&^3 {
		return bad("size", "%d bytes of compressed data at %d of %d", comp, pos, len(b))
	}
	for _, c := range b[pos+comp:] {
		if c != 0 {
			return bad("padding", "padding of %x", c)
		}
	}
	data, err := io.ReadAll(brotli.NewReader(bytes.NewReader(b[pos : pos+comp])))
	if err != nil {
		return bad("data", "%v", err)
	}
	if len(data) != stream {
		return bad("data", "the data decompresses to %d bytes, the directory says %d", len(data), stream)
	}
	return "", ""
}
