package props

import (
	"fmt"
	"math/bits"
)

// CheckSFNT judges the structure of a font file by the OpenType specification alone. It shares no code
// with the system under test. The returned class is "" for a valid file.
//
// Flaws that are tolerated, as the font had them to begin with, are named in skip.
func CheckSFNT(b []byte, skip map[string]bool) (class, msg string) {
	bad := func(class, f string, a ...interface{}) (string, string) { return class, fmt.Sprintf(f, a...) }
	if len(b) < 12 {
		return bad("header", "file of %d bytes", len(b))
	}
	ver := be32(b)
	if ver != 0x00010000 && ver != 0x4F54544F && ver != 0x74727565 {
		return bad("header", "version %08X", ver)
	}
	n := be16(b[4:])
	if n == 0 || len(b) < 12+16*n {
		return bad("directory", "%d tables in %d bytes", n, len(b))
	}
	sel, pow := 0, 1
	for pow*2 <= n {
		pow *= 2
		sel++
	}
	if be16(b[6:]) != pow*16 || be16(b[8:]) != sel || be16(b[10:]) != n*16-pow*16 {
		return bad("search fields", "searchRange %d entrySelector %d rangeShift %d for %d tables", be16(b[6:]), be16(b[8:]), be16(b[10:]), n)
	}
	sum := func(x []byte) (s uint32) {
		for i := 0; i+4 <= len(x); i += 4 {
			s += be32(x[i:])
		}
		return
	}
	type rng struct{ off, end uint32 }
	var used []rng
	T := map[string][]byte{}
	prev := ""
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		tag := string(b[p : p+4])
		cs, off, l := be32(b[p+4:]), be32(b[p+8:]), be32(b[p+12:])
		if i > 0 && tag <= prev {
			return bad("directory", "table %q follows %q", tag, prev)
		}
		prev = tag
		if off%4 != 0 {
			return bad("directory", "table %q starts at %d", tag, off)
		}
		if off < uint32(12+16*n) || uint64(off)+uint64(l) > uint64(len(b)) {
			return bad("directory", "table %q at %d+%d of %d bytes", tag, off, l, len(b))
		}
		end := (off + l + 3) &^ 3
		if end > uint32(len(b)) {
			return bad("directory", "table %q is not padded to four bytes", tag)
		}
		for _, x := range b[off+l : end] {
			if x != 0 {
				return bad("directory", "padding of table %q is not zero", tag)
			}
		}
		for _, u := range used {
			if off < u.end && u.off < off+l {
				return bad("directory", "table %q overlaps another", tag)
			}
		}
		used = append(used, rng{off, end})
		data := append([]byte(nil), b[off:end]...)
		if tag == "head" {
			if l < 54 {
				return bad("head", "length %d", l)
			}
			copy(data[8:12], []byte{0, 0, 0, 0})
		}
		if s := sum(data); s != cs {
			return bad("checksum", "checksum of %q is %08X, its data give %08X", tag, cs, s)
		}
		T[tag] = b[off : off+l]
	}
	if len(b)%4 != 0 {
		return bad("directory", "file length %d", len(b))
	}
	var last uint32
	for _, u := range used {
		if u.end > last {
			last = u.end
		}
	}
	if last != uint32(len(b)) {
		return bad("directory", "%d bytes after the last table", uint32(len(b))-last)
	}
	head, hasHead := T["head"]
	if hasHead {
		z := append([]byte(nil), b...)
		for i := 0; i < n; i++ {
			p := 12 + 16*i
			if string(b[p:p+4]) == "head" {
				o := be32(b[p+8:])
				copy(z[o+8:o+12], []byte{0, 0, 0, 0})
			}
		}
		if adj := be32(head[8:]); adj != 0xB1B0AFBA-sum(z) {
			return bad("checksum adjustment", "checkSumAdjustment %08X, the file gives %08X", adj, 0xB1B0AFBA-sum(z))
		}
	}
	maxp, ok := T["maxp"]
	if !ok || len(maxp) < 6 {
		return "", ""
	}
	ng := be16(maxp[4:])
	for _, x := range [][2]string{{"hhea", "hmtx"}, {"vhea", "vmtx"}} {
		h, ok1 := T[x[0]]
		m, ok2 := T[x[1]]
		if !ok1 || !ok2 {
			continue
		}
		if len(h) != 36 {
			return bad(x[0], "length %d", len(h))
		}
		k := be16(h[34:])
		if k < 1 || k > ng {
			return bad(x[1]+" count", "%d long metrics for %d glyphs", k, ng)
		}
		if len(m) != 4*k+2*(ng-k) {
			return bad(x[1]+" count", "%d bytes for %d long metrics and %d glyphs", len(m), k, ng)
		}
	}
	if p, ok := T["post"]; ok && len(p) >= 34 && be32(p) == 0x00020000 {
		if be16(p[32:]) != ng {
			return bad("post count", "%d names for %d glyphs", be16(p[32:]), ng)
		}
		if len(p) < 34+2*ng {
			return bad("post count", "table too short")
		}
		strs := 0
		for q := 34 + 2*ng; q < len(p); strs++ {
			q += 1 + int(p[q])
			if q > len(p) {
				return bad("post strings", "string %d exceeds the table", strs)
			}
		}
		for i := 0; i < ng; i++ {
			if x := be16(p[34+2*i:]); x >= 258+strs {
				return bad("post strings", "glyph %d has name index %d of %d", i, x, 258+strs)
			}
		}
	}
	if class, msg := checkGlyf(T, ng, skip); class != "" {
		return class, msg
	}
	if c, ok := T["CFF "]; ok {
		k, err := cffGlyphs(c)
		if err != "" {
			return bad("CFF", "%s", err)
		}
		if k != ng {
			return bad("CFF count", "%d char strings for %d glyphs", k, ng)
		}
	}
	if c, ok := T["cmap"]; ok {
		if class, msg := checkCmap(c, ng); class != "" {
			return class, msg
		}
	}
	if k, ok := T["kern"]; ok && len(k) >= 4 && be16(k) == 0 && !skip["kern"] {
		p := 4
		nt := be16(k[2:])
		for i := 0; i < nt; i++ {
			if p+14 > len(k) {
				return bad("kern", "subtable %d exceeds the table", i)
			}
			l, cov, np := be16(k[p+2:]), be16(k[p+4:]), be16(k[p+6:])
			if cov>>8 == 0 {
				if p+14+6*np > len(k) {
					return bad("kern", "pairs of subtable %d exceed the table", i)
				}
				if (14+6*np)&0xFFFF != l || i+1 < nt && 14+6*np != l {
					return bad("kern", "subtable %d has length %d and %d pairs", i, l, np)
				}
				if np > 0 && !skip["kern search"] {
					e := bits.Len(uint(np)) - 1
					if be16(k[p+8:]) != 6<<e&0xFFFF || be16(k[p+10:]) != e || be16(k[p+12:]) != (6*np-6<<e)&0xFFFF {
						return bad("kern search", "subtable %d of %d pairs has search parameters %d, %d, %d", i, np, be16(k[p+8:]), be16(k[p+10:]), be16(k[p+12:]))
					}
				}
				for j := 0; j < np; j++ {
					q := p + 14 + 6*j
					if j > 0 && be32(k[q:]) <= be32(k[q-6:]) && !skip["kern order"] {
						return bad("kern order", "pair %d of subtable %d is not in order", j, i)
					}
					if be16(k[q:]) >= ng || be16(k[q+2:]) >= ng {
						return bad("kern glyph", "pair (%d,%d) of %d glyphs", be16(k[q:]), be16(k[q+2:]), ng)
					}
				}
			}
			p += l
		}
	}
	return "", ""
}

func checkGlyf(T map[string][]byte, ng int, skip map[string]bool) (string, string) {
	bad := func(class, f string, a ...interface{}) (string, string) { return class, fmt.Sprintf(f, a...) }
	glyf, ok1 := T["glyf"]
	loca, ok2 := T["loca"]
	head, ok3 := T["head"]
	if !ok1 || !ok2 || !ok3 {
		return "", ""
	}
	if n := (ng + 1) * (2 + 2*(be16(head[50:])&1)); skip["loca length"] && len(loca) > n {
		loca = loca[:n]
	}
	offs, class, msg := locaOffsets(loca, be16(head[50:]), ng)
	if class != "" {
		return class, msg
	}
	for i := 0; i < ng; i++ {
		if offs[i+1] < offs[i] || offs[i+1] > len(glyf) {
			return bad("loca order", "glyph %d of %d lies at %d to %d of %d bytes", i, ng, offs[i], offs[i+1], len(glyf))
		}
		g := glyf[offs[i]:offs[i+1]]
		if len(g) == 0 {
			continue
		}
		if len(g) < 10 {
			return bad("glyf", "glyph %d has %d bytes", i, len(g))
		}
		comps, ok := Components(g)
		if !ok {
			return bad("glyf", "glyph %d is cut short", i)
		}
		for _, c := range comps {
			if c >= ng {
				return bad("composite reference", "glyph %d refers to glyph %d of %d", i, c, ng)
			}
		}
	}
	return "", ""
}

func locaOffsets(loca []byte, format, ng int) (offs []int, class, msg string) {
	size := 2
	if format == 1 {
		size = 4
	} else if format != 0 {
		return nil, "loca format", fmt.Sprintf("indexToLocFormat %d", format)
	}
	if len(loca) != size*(ng+1) {
		return nil, "loca length", fmt.Sprintf("%d bytes in format %d for %d glyphs", len(loca), format, ng)
	}
	for i := 0; i <= ng; i++ {
		if size == 2 {
			offs = append(offs, 2*be16(loca[2*i:]))
		} else {
			offs = append(offs, int(be32(loca[4*i:])))
		}
	}
	return offs, "", ""
}

// Components lists the glyphs a glyph description refers to.
func Components(g []byte) (res []int, ok bool) {
	if len(g) < 10 || g[0]&0x80 == 0 {
		return nil, true
	}
	p := 10
	for {
		if p+4 > len(g) {
			return nil, false
		}
		flags := be16(g[p:])
		res = append(res, be16(g[p+2:]))
		p += 6
		if flags&1 != 0 {
			p += 2
		}
		if flags&8 != 0 {
			p += 2
		} else if flags&0x40 != 0 {
			p += 4
		} else if flags&0x80 != 0 {
			p += 8
		}
		if p > len(g) {
			return nil, false
		}
		if flags&0x20 == 0 {
			return res, true
		}
	}
}

// fileComponents lists the components of every glyph of a font file, or nil if it has no glyf table.
func fileComponents(b []byte) [][]int {
	T := rawTables(b)
	if T["glyf"] == nil || T["loca"] == nil || len(T["head"]) < 54 || len(T["maxp"]) < 6 {
		return nil
	}
	ng := be16(T["maxp"][4:])
	loca, glyf := T["loca"], T["glyf"]
	get := func(i int) int {
		if be16(T["head"][50:]) == 0 {
			if 2*i+2 > len(loca) {
				return 0
			}
			return 2 * be16(loca[2*i:])
		}
		if 4*i+4 > len(loca) {
			return 0
		}
		return int(be32(loca[4*i:]))
	}
	res := make([][]int, ng)
	for i := 0; i < ng; i++ {
		a, z := get(i), get(i+1)
		if a < z && z <= len(glyf) {
			res[i], _ = Components(glyf[a:z])
		}
	}
	return res
}

func checkCmap(c []byte, ng int) (string, string) {
	bad := func(f string, a ...interface{}) (string, string) { return "cmap", fmt.Sprintf(f, a...) }
	if len(c) < 4 {
		return bad("length %d", len(c))
	}
	n := be16(c[2:])
	if len(c) < 4+8*n {
		return bad("%d records in %d bytes", n, len(c))
	}
	for i := 0; i < n; i++ {
		off := int(be32(c[4+8*i+4:]))
		if off+8 > len(c) {
			return bad("subtable %d at %d of %d", i, off, len(c))
		}
		s := c[off:]
		switch be16(s) {
		case 4:
			l := be16(s[2:])
			if l > len(s) || l < 16 {
				return bad("format 4 length %d of %d", l, len(s))
			}
			k := be16(s[6:]) / 2
			if l < 16+8*k {
				return bad("format 4 with %d segments in %d bytes", k, l)
			}
			prevEnd := -1
			for j := 0; j < k; j++ {
				end, start := be16(s[14+2*j:]), be16(s[16+2*k+2*j:])
				delta, ro := be16(s[16+4*k+2*j:]), be16(s[16+6*k+2*j:])
				if start <= prevEnd || end < start {
					return bad("format 4 segment %d covers %04X-%04X after %04X", j, start, end, prevEnd)
				}
				prevEnd = end
				if j == k-1 {
					if end != 0xFFFF {
						return bad("format 4 ends with segment %04X", end)
					}
					break
				}
				for ch := start; ch <= end; ch++ {
					g := 0
					if ro == 0 {
						g = (ch + delta) & 0xFFFF
					} else {
						p := 16 + 6*k + 2*j + ro + 2*(ch-start)
						if p+2 > l {
							return bad("format 4 segment %d points outside", j)
						}
						if g = be16(s[p:]); g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if g >= ng {
						return bad("character %04X maps to glyph %d of %d", ch, g, ng)
					}
				}
			}
		case 12:
			l := int(be32(s[4:]))
			if len(s) < 16 || l > len(s) || l < 16 {
				return bad("format 12 length %d of %d", l, len(s))
			}
			k := int(be32(s[12:]))
			if l < 16+12*k {
				return bad("format 12 with %d groups in %d bytes", k, l)
			}
			for j := 0; j < k; j++ {
				p := 16 + 12*j
				st, en, g := be32(s[p:]), be32(s[p+4:]), be32(s[p+8:])
				if en < st || j > 0 && st <= be32(s[p-8:]) {
					return bad("format 12 group %d covers %X-%X", j, st, en)
				}
				if uint64(g)+uint64(en-st) >= uint64(ng) {
					return bad("format 12 group %d maps to glyph %d of %d", j, g+en-st, ng)
				}
			}
		}
	}
	return "", ""
}

// cffGlyphs walks a CFF table and returns the number of char strings.
func cffGlyphs(b []byte) (n int, err string) {
	if len(b) < 4 || b[0] != 1 {
		return 0, "bad header"
	}
	p := int(b[2])
	index := func(p int) (items [][]byte, next int, ok bool) {
		if p+2 > len(b) {
			return nil, 0, false
		}
		k := be16(b[p:])
		if k == 0 {
			return nil, p + 2, true
		}
		if p+3 > len(b) {
			return nil, 0, false
		}
		sz := int(b[p+2])
		if sz < 1 || sz > 4 || p+3+(k+1)*sz > len(b) {
			return nil, 0, false
		}
		off := func(i int) (v int) {
			for j := 0; j < sz; j++ {
				v = v<<8 | int(b[p+3+i*sz+j])
			}
			return
		}
		base := p + 3 + (k+1)*sz - 1
		if off(0) != 1 {
			return nil, 0, false
		}
		for i := 0; i < k; i++ {
			if off(i+1) < off(i) || base+off(i+1) > len(b) {
				return nil, 0, false
			}
			items = append(items, b[base+off(i):base+off(i+1)])
		}
		return items, base + off(k), true
	}
	names, p, ok := index(p)
	if !ok || len(names) != 1 {
		return 0, "bad name index"
	}
	tops, p, ok := index(p)
	if !ok || len(tops) != 1 {
		return 0, "bad top dict index"
	}
	if _, p, ok = index(p); !ok {
		return 0, "bad string index"
	}
	if _, _, ok = index(p); !ok {
		return 0, "bad global subroutine index"
	}
	top := dict(tops[0])
	cs := top[17]
	if len(cs) != 1 {
		return 0, "no char strings"
	}
	items, _, ok := index(cs[0])
	if !ok {
		return 0, "bad char string index"
	}
	if pr := top[18]; len(pr) == 2 {
		if pr[0] < 0 || pr[1]+pr[0] > len(b) {
			return 0, "private dict outside of the table"
		}
		priv := dict(b[pr[1] : pr[1]+pr[0]])
		if s := priv[19]; len(s) == 1 {
			if _, _, ok := index(pr[1] + s[0]); !ok {
				return 0, "bad local subroutine index"
			}
		}
	}
	if ch := top[15]; len(ch) == 1 && ch[0] > 2 && len(items) > 1 {
		q := ch[0]
		if q >= len(b) {
			return 0, "charset outside of the table"
		}
		f := b[q]
		q++
		for covered := 1; covered < len(items); {
			switch f {
			case 0:
				q += 2
				covered++
			case 1:
				if q+3 > len(b) {
					return 0, "charset outside of the table"
				}
				covered += int(b[q+2]) + 1
				q += 3
			case 2:
				if q+4 > len(b) {
					return 0, "charset outside of the table"
				}
				covered += be16(b[q+2:]) + 1
				q += 4
			default:
				return 0, "bad charset format"
			}
		}
		if q > len(b) {
			return 0, "charset outside of the table"
		}
	}
	return len(items), ""
}

// dict reads the integer operands of a CFF DICT; escaped operators are 1200+n.
func dict(d []byte) map[int][]int {
	m := map[int][]int{}
	var st []int
	for i := 0; i < len(d); {
		c := int(d[i])
		switch {
		case c == 12 && i+1 < len(d):
			m[1200+int(d[i+1])] = st
			st = nil
			i += 2
		case c <= 21:
			m[c] = st
			st = nil
			i++
		case c == 28 && i+2 < len(d):
			st = append(st, int(int16(be16(d[i+1:]))))
			i += 3
		case c == 29 && i+4 < len(d):
			st = append(st, int(int32(be32(d[i+1:]))))
			i += 5
		case c == 30:
			i++
			for i < len(d) && d[i]&0xF != 0xF && d[i]>>4 != 0xF {
				i++
			}
			i++
			st = append(st, 0)
		case c >= 32 && c <= 246:
			st = append(st, c-139)
			i++
		case c >= 247 && c <= 250 && i+1 < len(d):
			st = append(st, (c-247)*256+int(d[i+1])+108)
			i += 2
		case c >= 251 && c <= 254 && i+1 < len(d):
			st = append(st, -(c-251)*256-int(d[i+1])-108)
			i += 2
		default:
			i++
		}
	}
	return m
}

// Flaws lists what is wrong with a font to begin with, of what survives a font that is written unchanged.
func Flaws(b []byte) map[string]bool {
	skip := map[string]bool{}
	for {
		c, _ := CheckSFNT(b, skip)
		if skip[c] || c != "kern" && c != "kern order" && c != "kern search" && c != "loca length" {
			return skip
		}
		skip[c] = true
	}
}
