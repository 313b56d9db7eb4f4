package fontgen

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/andybalholm/brotli"

	"github.com/tdewolff/font/zzverif/simrt"
)

// Table is one table of a font file.
type Table struct {
	Tag  string
	Data []byte
}

// Split returns the version and tables of a plain font file.
func Split(b []byte) (version uint32, ts []Table) {
	version = binary.BigEndian.Uint32(b)
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		off, l := binary.BigEndian.Uint32(e[8:]), binary.BigEndian.Uint32(e[12:])
		ts = append(ts, Table{string(e[:4]), append([]byte(nil), b[off:off+l]...)})
	}
	return
}

// Join assembles tables into a plain font file.
func Join(version uint32, ts []Table) []byte {
	m := map[string][]byte{}
	for _, t := range ts {
		m[t.Tag] = t.Data
	}
	return Assemble(version, m, false)
}

// Span is where table data is stored in a container.
type Span struct {
	Tag      string
	Off, Len int
	Orig     int
	Sum      uint32 // declared checksum of the table
}

func deflate(b []byte, level int) []byte {
	var w bytes.Buffer
	z, _ := zlib.NewWriterLevel(&w, level)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

// WOFF wraps tables, sorted by tag, in the WOFF format. Variations are drawn from r.
func WOFF(version uint32, ts []Table, r *simrt.Rand) ([]byte, []Span) {
	ts = sorted(ts)
	level := []int{1, 6, 9, 0}[r.Intn(4)]
	some := r.Bool(30) // compress only some
	perm := r.Perm(len(ts))
	if r.Bool(70) {
		for i := range perm {
			perm[i] = i
		}
	}
	spans := make([]Span, len(ts))
	data := make([][]byte, len(ts))
	total := 12 + 16*len(ts)
	for i, t := range ts {
		total += (len(t.Data) + 3) &^ 3
		d := t.Data
		z := deflate(d, level)
		if len(z) < len(d) && !(some && r.Bool(50)) {
			d = z
		}
		data[i] = d
		sum := t.Data
		if t.Tag == "head" && len(sum) >= 12 {
			sum = append([]byte(nil), sum...)
			copy(sum[8:], []byte{0, 0, 0, 0})
		}
		spans[i] = Span{t.Tag, 0, len(d), len(t.Data), Checksum(sum)}
	}
	off := 44 + 20*len(ts)
	var body buf
	for _, i := range perm {
		spans[i].Off = off
		body.bytes(data[i])
		off += len(data[i])
		for off%4 != 0 {
			body.u8(0)
			off++
		}
	}
	metaOff, metaLen, metaOrig, privOff, privLen := 0, 0, 0, 0, 0
	if r.Bool(20) {
		m := []byte("<?xml version=\"1.0\"?><metadata version=\"1.0\"/>")
		z := deflate(m, 6)
		metaOff, metaLen, metaOrig = off, len(z), len(m)
		body.bytes(z)
		off += len(z)
	}
	if r.Bool(20) {
		for off%4 != 0 {
			body.u8(0)
			off++
		}
		privOff, privLen = off, 13
		body.str("private data!")
		off += 13
	}
	var w buf
	w.str("wOFF")
	w.u32(version)
	w.u32(uint32(off))
	w.u16(len(ts))
	w.u16(0)
	w.u32(uint32(total))
	w.u16(1)
	w.u16(0)
	for _, v := range []int{metaOff, metaLen, metaOrig, privOff, privLen} {
		w.u32(uint32(v))
	}
	for _, s := range spans {
		w.str(s.Tag)
		w.u32(uint32(s.Off))
		w.u32(uint32(s.Len))
		w.u32(uint32(s.Orig))
		w.u32(s.Sum)
	}
	w.bytes(body.b)
	return w.b, spans
}

func sorted(ts []Table) []Table {
	ts = append([]Table(nil), ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Tag < ts[j].Tag })
	return ts
}

// UnWOFF decodes one table from a WOFF file, independently of the system under test.
func UnWOFF(b []byte, s Span) ([]byte, error) {
	d := b[s.Off : s.Off+s.Len]
	if s.Len == s.Orig {
		return append([]byte(nil), d...), nil
	}
	z, err := zlib.NewReader(bytes.NewReader(d))
	if err != nil {
		return nil, err
	}
	var w bytes.Buffer
	if _, err := w.ReadFrom(z); err != nil {
		return nil, err
	}
	if w.Len() != s.Orig {
		return nil, fmt.Errorf("length %d instead of %d", w.Len(), s.Orig)
	}
	return w.Bytes(), nil
}

var woff2Tags = []string{
	"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ",
	"VORG", "EBDT", "EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT", "VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB"}

func base128(w *buf, v uint32) {
	n := 1
	for x := v >> 7; x > 0; x >>= 7 {
		n++
	}
	for i := n - 1; i >= 0; i-- {
		c := int(v>>(7*uint(i))) & 0x7F
		if i > 0 {
			c |= 0x80
		}
		w.u8(c)
	}
}

// Brotli compresses.
func Brotli(b []byte, level int) []byte {
	var w bytes.Buffer
	z := brotli.NewWriterLevel(&w, level)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

// UnBrotli decompresses.
func UnBrotli(b []byte) ([]byte, error) {
	var w bytes.Buffer
	_, err := w.ReadFrom(brotli.NewReader(bytes.NewReader(b)))
	return w.Bytes(), err
}

// WOFF2 wraps tables in the WOFF2 format without transformations.
func WOFF2(version uint32, ts []Table, r *simrt.Rand) []byte {
	ts = sorted(ts)
	// loca directly after glyf
	var dir, stream buf
	total := 12 + 16*len(ts)
	add := func(t Table) {
		known := 63
		for i, tag := range woff2Tags {
			if tag == t.Tag && !r.Bool(5) {
				known = i
			}
		}
		flags := known
		if t.Tag == "glyf" || t.Tag == "loca" {
			flags |= 3 << 6
		}
		dir.u8(flags)
		if known == 63 {
			dir.str(t.Tag)
		}
		d := t.Data
		if t.Tag == "head" && len(d) >= 18 {
			d = append([]byte(nil), d...)
			d[16] |= 0x08
		}
		base128(&dir, uint32(len(d)))
		stream.bytes(d)
		total += (len(d) + 3) &^ 3
	}
	var loca *Table
	glyf := false
	for _, t := range ts {
		glyf = glyf || t.Tag == "glyf"
	}
	n := 0
	for i := range ts {
		switch ts[i].Tag {
		case "DSIG":
			continue
		case "loca":
			if !glyf {
				loca = &ts[i]
			}
			continue
		}
		add(ts[i])
		n++
		if ts[i].Tag == "glyf" {
			for k := range ts {
				if ts[k].Tag == "loca" {
					add(ts[k])
					n++
				}
			}
		}
	}
	if loca != nil {
		add(*loca)
		n++
	}
	return woff2File(version, n, total, dir.b, stream.b, r)
}

func woff2File(version uint32, n, total int, dir, stream []byte, r *simrt.Rand) []byte {
	comp := Brotli(stream, 1+r.Intn(3))
	var w buf
	w.str("wOF2")
	w.u32(version)
	length := 48 + len(dir) + len(comp)
	w.u32(uint32((length + 3) &^ 3))
	w.u16(n)
	w.u16(0)
	w.u32(uint32(total))
	w.u32(uint32(len(comp)))
	w.u16(1)
	w.u16(0)
	for i := 0; i < 5; i++ {
		w.u32(0)
	}
	w.bytes(dir)
	w.bytes(comp)
	for len(w.b)%4 != 0 {
		w.u8(0)
	}
	return w.b
}

// WOFF2Parts takes a WOFF2 file apart: its directory bytes and its decompressed stream.
func WOFF2Parts(b []byte) (dir, stream []byte, ok bool) {
	if len(b) < 48 {
		return nil, nil, false
	}
	n := int(binary.BigEndian.Uint16(b[12:]))
	comp := int(binary.BigEndian.Uint32(b[20:]))
	p := 48
	num := func() {
		for p < len(b) && b[p]&0x80 != 0 {
			p++
		}
		p++
	}
	for i := 0; i < n; i++ {
		if p >= len(b) {
			return nil, nil, false
		}
		f := b[p]
		p++
		tag := ""
		if f&63 == 63 {
			tag = string(b[p : p+4])
			p += 4
		} else if int(f&63) < len(woff2Tags) {
			tag = woff2Tags[f&63]
		}
		num()
		if v := f >> 6; (tag == "glyf" || tag == "loca") && v != 3 || tag == "hmtx" && v == 1 {
			num()
		}
	}
	if p+comp > len(b) {
		return nil, nil, false
	}
	s, err := UnBrotli(b[p : p+comp])
	return b[48:p], s, err == nil
}

// WOFF2Rebuild puts the parts together again.
func WOFF2Rebuild(old, dir, stream []byte, r *simrt.Rand) []byte {
	return woff2File(binary.BigEndian.Uint32(old[4:]), int(binary.BigEndian.Uint16(old[12:])), int(binary.BigEndian.Uint32(old[16:])), dir, stream, r)
}

// EOT wraps a font file in the Embedded OpenType format.
func EOT(b []byte, r *simrt.Rand, xor bool) []byte {
	var w bytes.Buffer
	u16 := func(v int) { binary.Write(&w, binary.LittleEndian, uint16(v)) }
	u32 := func(v uint32) { binary.Write(&w, binary.LittleEndian, v) }
	version := []uint32{0x00010000, 0x00020001, 0x00020002}[r.Intn(3)]
	data := append([]byte(nil), b...)
	flags := uint32(0)
	if xor {
		flags = 0x10000000
		for i := range data {
			data[i] ^= 0x50
		}
	}
	u32(0)
	u32(uint32(len(data)))
	u32(version)
	u32(flags)
	w.Write(make([]byte, 10))
	w.Write([]byte{1, 0})
	u32(400)
	u16(0)
	u16(0x504C)
	w.Write(make([]byte, 24))
	u32(0) // checkSumAdjustment
	w.Write(make([]byte, 16))
	u16(0)
	name := func(s string) {
		u16(2 * len(s))
		for _, c := range s {
			u16(int(c))
		}
	}
	name("Family"[:r.Intn(7)])
	u16(0)
	name("Regular"[:r.Intn(8)])
	u16(0)
	name("Version 1"[:r.Intn(10)])
	u16(0)
	name("Family Regular"[:r.Intn(15)])
	if version != 0x00010000 {
		u16(0)
		name("root"[:r.Intn(5)])
	}
	if version == 0x00020002 {
		u32(0)
		u32(0)
		u16(0)
		u16(0)
		u32(0)
		u32(0)
	}
	w.Write(data)
	res := w.Bytes()
	binary.LittleEndian.PutUint32(res, uint32(len(res)))
	return res
}

// TTC makes a collection of the fonts.
func TTC(fonts [][]byte, r *simrt.Rand) []byte {
	var w buf
	w.str("ttcf")
	major := 1 + r.Intn(2)
	w.u16(major)
	w.u16(0)
	w.u32(uint32(len(fonts)))
	off := 12 + 4*len(fonts)
	if major == 2 {
		off += 12
	}
	order := r.Perm(len(fonts)) // of the fonts in the file
	if r.Bool(60) {
		for i := range order {
			order[i] = i
		}
	}
	at := make([]int, len(fonts))
	for _, i := range order {
		at[i] = off
		off += (len(fonts[i]) + 3) &^ 3
	}
	for _, o := range at {
		w.u32(uint32(o))
	}
	if major == 2 {
		w.u32(0)
		w.u32(0)
		w.u32(0)
	}
	for _, i := range order {
		b := append([]byte(nil), fonts[i]...)
		n := int(binary.BigEndian.Uint16(b[4:]))
		for k := 0; k < n; k++ {
			e := b[12+16*k+8:]
			binary.BigEndian.PutUint32(e, binary.BigEndian.Uint32(e)+uint32(at[i]))
		}
		w.bytes(b)
		for len(w.b)%4 != 0 {
			w.u8(0)
		}
	}
	return w.b
}

// AFM writes Adobe font metrics.
func AFM(r *simrt.Rand) []byte {
	var w bytes.Buffer
	nl := []string{"\n", "\r\n", "\r"}[r.Intn(3)]
	p := func(f string, a ...interface{}) { fmt.Fprintf(&w, f, a...); w.WriteString(nl) }
	p("StartFontMetrics 4.1")
	p("Comment Copyright (c) something")
	p("FontName Test-Font")
	p("FullName Test Font Bold")
	p("FamilyName Test")
	p("Weight Bold")
	p("ItalicAngle %d", -r.Intn(20))
	p("IsFixedPitch %v", r.Bool(50))
	p("CharacterSet ExtendedRoman")
	p("FontBBox -168 -218 1000 898")
	p("UnderlinePosition -100")
	p("UnderlineThickness 50")
	p("Version 002.000")
	p("EncodingScheme AdobeStandardEncoding")
	p("CapHeight 662")
	p("XHeight 450")
	p("Ascender 683")
	p("Descender -217")
	p("StdHW 28")
	names := []string{"space", "exclam", "A", "B", "C", "a", "b", "f", "i", "l", "fi", "fl", "Euro", "zcaron", "commaaccent", "uni20AC"}
	n := 1 + r.Intn(len(names))
	p("StartCharMetrics %d", n)
	for i := 0; i < n; i++ {
		lig := ""
		if names[i] == "f" {
			lig = " L i fi ; L l fl ;"
		}
		p("C %d ; WX %d ; N %s ; B %d %d %d %d ;%s", 32+i, r.Intn(1000), names[i], r.Intn(100), -r.Intn(200), r.Intn(1000), r.Intn(900), lig)
	}
	p("EndCharMetrics")
	if r.Bool(80) {
		p("StartKernData")
		k := r.Intn(6)
		p("StartKernPairs %d", k)
		for i := 0; i < k; i++ {
			p("KPX %s %s %d", names[r.Intn(n)], names[r.Intn(n)], r.Intn(200)-100)
		}
		p("EndKernPairs")
		p("EndKernData")
	}
	p("EndFontMetrics")
	return w.Bytes()
}

// Raw is a table of a WOFF file as it is stored.
type Raw struct {
	Tag  string
	Data []byte
	Orig uint32
	Sum  uint32
}

// RawTable stores a table the usual way.
func RawTable(t Table) Raw {
	r := Raw{Tag: t.Tag, Data: t.Data, Orig: uint32(len(t.Data))}
	if z := deflate(t.Data, 6); len(z) < len(t.Data) {
		r.Data = z
	}
	sum := t.Data
	if t.Tag == "head" && len(sum) >= 12 {
		sum = append([]byte(nil), sum...)
		clear(sum[8:12])
	}
	r.Sum = Checksum(sum)
	return r
}

// Deflate compresses.
func Deflate(b []byte) []byte { return deflate(b, 9) }

// WOFFRaw builds a WOFF file of tables, sorted by tag, with what they declare.
func WOFFRaw(version uint32, ts []Raw) []byte {
	ts = append([]Raw(nil), ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Tag < ts[j].Tag })
	total := uint32(12 + 16*len(ts))
	off := 44 + 20*len(ts)
	var dir, body buf
	for _, t := range ts {
		total += (t.Orig + 3) &^ 3
		dir.str(t.Tag)
		dir.u32(uint32(off))
		dir.u32(uint32(len(t.Data)))
		dir.u32(t.Orig)
		dir.u32(t.Sum)
		body.bytes(t.Data)
		off += len(t.Data)
		for off%4 != 0 {
			body.u8(0)
			off++
		}
	}
	var w buf
	w.str("wOFF")
	w.u32(version)
	w.u32(uint32(off))
	w.u16(len(ts))
	w.u16(0)
	w.u32(total)
	w.u16(1)
	w.u16(0)
	for i := 0; i < 5; i++ {
		w.u32(0)
	}
	w.bytes(dir.b)
	w.bytes(body.b)
	return w.b
}

// DirEntry is an entry of the directory of a WOFF2 file.
type DirEntry struct {
	Head     []byte // flags and tag
	Orig     uint32
	Trans    uint32
	HasTrans bool
}

// WOFF2Dir reads the directory of a WOFF2 file.
func WOFF2Dir(b []byte) (res []DirEntry) {
	dir, _, ok := WOFF2Parts(b)
	if !ok {
		return nil
	}
	p := 0
	num := func() (v uint32) {
		for {
			c := dir[p]
			p++
			v = v<<7 | uint32(c&0x7F)
			if c&0x80 == 0 {
				return
			}
		}
	}
	for p < len(dir) {
		at := p
		f := dir[p]
		p++
		tag := ""
		if f&63 == 63 {
			tag = string(dir[p : p+4])
			p += 4
		} else if int(f&63) < len(woff2Tags) {
			tag = woff2Tags[f&63]
		}
		d := DirEntry{Head: dir[at:p], Orig: num()}
		if v := f >> 6; (tag == "glyf" || tag == "loca") && v != 3 || tag == "hmtx" && v == 1 {
			d.HasTrans = true
			d.Trans = num()
		}
		res = append(res, d)
	}
	return
}

// WOFF2DirBytes is the inverse of WOFF2Dir.
func WOFF2DirBytes(ds []DirEntry) []byte {
	var w buf
	for _, d := range ds {
		w.bytes(d.Head)
		base128(&w, d.Orig)
		if d.HasTrans {
			base128(&w, d.Trans)
		}
	}
	return w.b
}
