package props

import (
	"fmt"

	"github.com/tdewolff/font"
)

// unicodeMap reads the Unicode subtables of a cmap table by the OpenType specification alone.
func unicodeMap(c []byte) (m map[rune]uint16, err string) {
	m = map[rune]uint16{}
	if len(c) < 4 || len(c) < 4+8*be16(c[2:]) {
		return nil, "table too short"
	}
	prev := -1
	for i := 0; i < be16(c[2:]); i++ {
		r := c[4+8*i:]
		pid, eid, off := be16(r), be16(r[2:]), int(be32(r[4:]))
		if key := pid<<16 | eid; key < prev {
			return nil, fmt.Sprintf("encoding record %d (%d, %d) is not in order", i, pid, eid)
		} else {
			prev = key
		}
		if off+8 > len(c) {
			return nil, fmt.Sprintf("subtable %d outside of the table", i)
		}
		s := c[off:]
		format := be16(s)
		switch {
		case pid == 0 && eid <= 3 || pid == 3 && eid == 1:
			if format == 12 {
				return nil, fmt.Sprintf("format 12 for platform %d encoding %d", pid, eid)
			}
		case pid == 0 && (eid == 4 || eid == 6) || pid == 3 && eid == 10:
		case pid == 2 || pid > 4:
			return nil, fmt.Sprintf("platform %d", pid)
		default:
			continue // not Unicode
		}
		add := func(ch, g int) {
			if _, ok := m[rune(ch)]; !ok && g != 0 {
				m[rune(ch)] = uint16(g)
			}
		}
		switch format {
		case 0:
			for ch := 0; ch < 256 && 6+ch < len(s); ch++ {
				add(ch, int(s[6+ch]))
			}
		case 4:
			k := be16(s[6:]) / 2
			for j := 0; j < k; j++ {
				end, start := be16(s[14+2*j:]), be16(s[16+2*k+2*j:])
				delta, ro := be16(s[16+4*k+2*j:]), be16(s[16+6*k+2*j:])
				for ch := start; ch <= end; ch++ {
					if ro == 0 {
						add(ch, (ch+delta)&0xFFFF)
					} else if p := 16 + 6*k + 2*j + ro + 2*(ch-start); p+2 <= len(s) {
						if g := be16(s[p:]); g != 0 {
							add(ch, (g+delta)&0xFFFF)
						}
					}
				}
			}
		case 6:
			for j := 0; j < be16(s[8:]) && 12+2*j <= len(s); j++ {
				add(be16(s[6:])+j, be16(s[10+2*j:]))
			}
		case 12:
			for j := 0; j < int(be32(s[12:])); j++ {
				g := s[16+12*j:]
				for ch := be32(g); ch <= be32(g[4:]); ch++ {
					add(int(ch), int(be32(g[8:])+ch-be32(g)))
				}
			}
		}
	}
	return m, ""
}

// checkUnicode judges the character map of an edited font, which is valid as such: other software that goes
// by the Unicode subtables finds the glyphs that the library finds.
func checkUnicode(f *font.SFNT, file []byte) string {
	var c []byte
	for i := 0; i < be16(file[4:]); i++ {
		r := file[12+16*i:]
		if string(r[:4]) == "cmap" {
			c = file[be32(r[8:]) : be32(r[8:])+be32(r[12:])]
		}
	}
	if c == nil || f.Cmap == nil {
		return ""
	}
	m, err := unicodeMap(c)
	if err != "" {
		return err
	}
	for ch, g := range m {
		if got := f.GlyphIndex(ch); got != g {
			return fmt.Sprintf("character %04X is glyph %d in the file and glyph %d in memory", ch, g, got)
		}
	}
	n := 0
	for g := 1; g < int(f.NumGlyphs()); g++ {
		for _, ch := range f.GlyphToUnicode(uint16(g)) {
			if _, ok := m[ch]; !ok && f.GlyphIndex(ch) != 0 {
				return fmt.Sprintf("character %04X is glyph %d in memory and none in the file ", ch, f.GlyphIndex(ch))
			}
		}
		if n++; n > 3000 {
			break
		}
	}
	return ""
}
