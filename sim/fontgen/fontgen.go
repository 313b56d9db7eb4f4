// Package fontgen builds small, well-formed fonts of known content from a specification. It shares no
// code with the system under test.
package fontgen

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"unicode/utf16"

	"github.com/tdewolff/font/zzverif/simrt"
)

// Spec says which font to build. Equal specifications give equal bytes.
type Spec struct {
	Kind   string // "ttf", "cff", "cid" or "file"
	File   string `json:",omitempty"` // for "file": name below the resources directory
	Seed   uint64 `json:",omitempty"`
	Glyphs int    `json:",omitempty"` // including .notdef
	// content classes
	Composite int    `json:",omitempty"` // percent of glyphs that are composite (ttf)
	Deep      bool   `json:",omitempty"` // composites of composites
	Empty     int    `json:",omitempty"` // percent of empty glyphs
	Instr     bool   `json:",omitempty"` // glyph programs, cvt, fpgm, prep
	Overlap   int    `json:",omitempty"` // percent of glyphs with the overlap flag
	BigCoords bool   `json:",omitempty"`
	Metrics   int    `json:",omitempty"` // 0 all different, 1 shared tail, 2 monospaced
	OddLSB    bool   `json:",omitempty"` // side bearings that differ from xMin
	Names     int    `json:",omitempty"` // 0 post 3, 1 post 2 custom, 2 post 2 mixed standard/custom, 3 duplicates
	Kern      int    `json:",omitempty"` // number of kern pairs
	KernSubs  int    `json:",omitempty"` // number of kern subtables (default 1)
	Vertical  bool   `json:",omitempty"`
	OS2       int    `json:",omitempty"` // 0 none, else version+1
	Cmap      int    `json:",omitempty"` // bit set: 1 format 4, 2 format 12, 4 format 6, 8 format 0
	MultiMap  int    `json:",omitempty"` // percent of glyphs with more than one character
	RuneBase  int    `json:",omitempty"` // first character used
	RuneGap   int    `json:",omitempty"` // irregularity of the characters
	Scramble  bool   `json:",omitempty"` // glyph order differs from character order
	LongLoca  bool   `json:",omitempty"`
	LocaPad   int    `json:",omitempty"` // glyph alignment: 0 is 2, else 1 or 4 (1 only with long loca)
	Extra     bool   `json:",omitempty"` // extra unknown tables
	Subrs     int    `json:",omitempty"` // number of local subroutines (cff)
	GSubrs    int    `json:",omitempty"` // number of global subroutines (cff)
	FDs       int    `json:",omitempty"` // number of font dictionaries (cid)
	StdNames  bool   `json:",omitempty"` // standard glyph names in the charset (cff)
	Padding   bool   `json:",omitempty"` // trailing bytes after the last table's padding
	Private   bool   `json:",omitempty"` // rich Private and Top DICTs
	ItalicNeg bool   `json:",omitempty"`
	Family    string `json:",omitempty"`
	Style     string `json:",omitempty"`
	Pref      bool   `json:",omitempty"` // preferred family/subfamily name records
	NameVar   int    `json:",omitempty"` // layout of the name table: 1 version 1, 2 no Macintosh names, 4 Unicode platform names, 8 gap before the strings, 16 strings far away, 32 names in several languages, 64 preferred style differs from the other
	Weight    int    `json:",omitempty"`
	MaxComp   bool   `json:",omitempty"`
	BigSub    int    `json:",omitempty"` // bytes per subroutine body filler
	LongNums  bool   `json:",omitempty"` // subroutine numbers need not be in their shortest encoding
	Bounds    bool   `json:",omitempty"` // sizes and values at the limits of their encodings
	Huge      int    `json:",omitempty"` // percent of glyphs with tens of thousands of bytes of instructions (ttf)
	KernMin   bool   `json:",omitempty"` // minimum subtables among the kerning subtables
	KernOdd   bool   `json:",omitempty"` // kerning subtables of unsupported kinds in between, unsorted pairs
	Trail     bool   `json:",omitempty"` // glyph data after the last glyph, unused entries in loca
	Charset   int    `json:",omitempty"` // format of the CFF charset
	Dict      int    `json:",omitempty"` // seed for arbitrary values in the CFF DICTs
}

// Model is what the font is known to contain.
type Model struct {
	NumGlyphs int
	UPM       int
	Adv       []uint16
	LSB       []int16
	VAdv      []uint16
	Runes     map[rune]uint16
	Names     []string
	Kern      map[[2]uint16]int16
	Comps     [][]uint16
	Empty     []bool
}

type buf struct{ b []byte }

func (w *buf) u8(v int)       { w.b = append(w.b, byte(v)) }
func (w *buf) u16(v int)      { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *buf) u24(v int)      { w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v)) }
func (w *buf) u32(v uint32)   { w.b = binary.BigEndian.AppendUint32(w.b, v) }
func (w *buf) u64(v uint64)   { w.b = binary.BigEndian.AppendUint64(w.b, v) }
func (w *buf) bytes(v []byte) { w.b = append(w.b, v...) }
func (w *buf) str(v string)   { w.b = append(w.b, v...) }

var cache = map[string]struct {
	b []byte
	m *Model
}{}

// Build returns a private copy of the font's bytes and its model. For "file" fonts the model is nil.
func Build(s Spec, file func(string) []byte) ([]byte, *Model) {
	if s.Kind == "file" {
		return append([]byte(nil), file(s.File)...), nil
	}
	key := fmt.Sprintf("%+v", s)
	if c, ok := cache[key]; ok {
		return append([]byte(nil), c.b...), c.m
	}
	b, m := build(s)
	if len(cache) > 200 {
		cache = map[string]struct {
			b []byte
			m *Model
		}{}
	}
	cache[key] = struct {
		b []byte
		m *Model
	}{b, m}
	return append([]byte(nil), b...), m
}

func build(s Spec) ([]byte, *Model) {
	if s.Glyphs < 1 {
		s.Glyphs = 1
	}
	r := simrt.NewRand(simrt.Mix(s.Seed, 0xF0))
	m := &Model{NumGlyphs: s.Glyphs, Runes: map[rune]uint16{}, Kern: map[[2]uint16]int16{}, Comps: make([][]uint16, s.Glyphs), Empty: make([]bool, s.Glyphs)}
	n := s.Glyphs
	m.UPM = 1000
	if s.Kind == "ttf" && s.Seed%3 == 0 {
		m.UPM = 2048
	}

	tables := map[string][]byte{}
	xmins := make([]int16, n)
	if s.Kind == "ttf" {
		g := r.Fork()
		h := *g
		if glyf := buildGlyf(s, g, m, tables, xmins); !s.LongLoca && glyf > 2*math.MaxUint16 {
			s.LongLoca = true
			buildGlyf(s, &h, m, tables, xmins)
		}
	}
	// metrics
	m.Adv, m.LSB = make([]uint16, n), make([]int16, n)
	mr := r.Fork()
	numH := n
	mono := uint16(mr.Range(200, 900))
	if s.Metrics == 1 {
		numH = 1 + mr.Intn(n)
	} else if s.Metrics == 2 {
		numH = 1
	}
	for i := 0; i < n; i++ {
		m.Adv[i] = uint16(300 + mr.Intn(900))
		if s.Metrics == 2 {
			m.Adv[i] = mono
		} else if numH <= i {
			m.Adv[i] = m.Adv[numH-1]
		} else if i > 0 && mr.Bool(15) {
			m.Adv[i] = m.Adv[i-1]
		}
		if s.Bounds && s.Metrics == 0 && mr.Bool(20) {
			m.Adv[i] = []uint16{0, 1, 32767, 32768, 65535}[mr.Intn(5)]
		}
		m.LSB[i] = xmins[i]
		if s.OddLSB && mr.Bool(40) || s.Kind != "ttf" {
			m.LSB[i] = int16(mr.Range(-200, 200))
			if s.Bounds && mr.Bool(10) {
				m.LSB[i] = []int16{-32768, 32767, 0, -1}[mr.Intn(4)]
			}
		}
	}
	var w buf
	for i := 0; i < n; i++ {
		if i < numH {
			w.u16(int(m.Adv[i]))
		}
		w.u16(int(m.LSB[i]))
	}
	tables["hmtx"] = w.b

	w = buf{}
	w.u32(0x00010000)
	w.u16(800)
	w.u16(-200 & 0xffff)
	w.u16(90)
	w.u16(1200)
	for i := 0; i < 3; i++ {
		w.u16(0)
	}
	w.u16(1)
	for i := 0; i < 7; i++ {
		w.u16(0)
	}
	w.u16(numH)
	tables["hhea"] = w.b

	if s.Vertical {
		numV := n
		if mr.Bool(50) {
			numV = 1 + mr.Intn(n)
		}
		m.VAdv = make([]uint16, n)
		w = buf{}
		for i := 0; i < n; i++ {
			m.VAdv[i] = uint16(800 + mr.Intn(500))
			if numV <= i {
				m.VAdv[i] = m.VAdv[numV-1]
			} else {
				w.u16(int(m.VAdv[i]))
			}
			w.u16(mr.Intn(100))
		}
		tables["vmtx"] = w.b
		w = buf{}
		w.u32(0x00010000)
		w.u16(500)
		w.u16(-500 & 0xffff)
		for i := 0; i < 13; i++ {
			w.u16(0)
		}
		w.u16(numV)
		tables["vhea"] = w.b
	}

	// characters
	buildCmap(s, r.Fork(), m, tables)

	// head
	w = buf{}
	w.u32(0x00010000)
	w.u32(0x00018000)
	w.u32(0)
	w.u32(0x5F0F3CF5)
	w.u16(0x000B)
	w.u16(m.UPM)
	w.u64(3500000000)
	w.u64(3600000000)
	w.u16(-100 & 0xffff)
	w.u16(-250 & 0xffff)
	w.u16(1100)
	w.u16(900)
	w.u16(0)
	w.u16(8)
	w.u16(2)
	if s.LongLoca {
		w.u16(1)
	} else {
		w.u16(0)
	}
	w.u16(0)
	tables["head"] = w.b

	// maxp
	w = buf{}
	if s.Kind == "ttf" {
		w.u32(0x00010000)
		w.u16(n)
		for i := 0; i < 13; i++ {
			w.u16(10 + mr.Intn(20))
		}
	} else {
		w.u32(0x00005000)
		w.u16(n)
	}
	tables["maxp"] = w.b

	buildName(s, tables)
	m.Names = buildNames(s, r.Fork(), m)
	buildPost(s, m, tables)
	if s.OS2 > 0 {
		buildOS2(s, r.Fork(), tables)
	}
	if s.Kern > 0 {
		buildKern(s, r.Fork(), m, tables)
	}
	if s.Kind == "ttf" && s.Instr {
		for _, t := range []string{"cvt ", "fpgm", "prep"} {
			b := make([]byte, 2+2*mr.Intn(8))
			for i := range b {
				b[i] = byte(mr.Intn(256))
			}
			if t == "prep" && mr.Bool(50) {
				b = append(b, 0xB0)
			}
			tables[t] = b
		}
	}
	if s.Extra {
		for _, t := range []string{"gasp", "zzzz", "AAAA", "DSIG"} {
			b := make([]byte, 4+mr.Intn(23))
			for i := range b {
				b[i] = byte(mr.Intn(256))
			}
			tables[t] = b
		}
	}
	if s.Kind != "ttf" {
		tables["CFF "] = buildCFF(s, r.Fork(), m)
	}
	version := uint32(0x00010000)
	if s.Kind != "ttf" {
		version = 0x4F54544F
	} else if s.Seed%7 == 3 {
		version = 0x74727565
	}
	return Assemble(version, tables, s.Padding), m
}

// Assemble writes an SFNT file with correct checksums.
func Assemble(version uint32, tables map[string][]byte, trailing bool) []byte {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	var w buf
	w.u32(version)
	nt := len(tags)
	es := int(math.Log2(float64(nt)))
	sr := 1 << (es + 4)
	w.u16(nt)
	w.u16(sr)
	w.u16(es)
	w.u16(nt*16 - sr)
	off := 12 + 16*nt
	for _, t := range tags {
		b := tables[t]
		if t == "head" && len(b) >= 12 {
			b = append([]byte(nil), b...)
			copy(b[8:], []byte{0, 0, 0, 0})
			tables[t] = b
		}
		w.str(t)
		w.u32(Checksum(b))
		w.u32(uint32(off))
		w.u32(uint32(len(b)))
		off += (len(b) + 3) &^ 3
	}
	headPos := 0
	for _, t := range tags {
		if t == "head" && len(tables[t]) >= 12 {
			headPos = len(w.b)
		}
		w.bytes(tables[t])
		for len(w.b)%4 != 0 {
			w.u8(0)
		}
	}
	if headPos > 0 {
		binary.BigEndian.PutUint32(w.b[headPos+8:], 0xB1B0AFBA-Checksum(w.b))
	}
	if trailing {
		w.u32(0)
	}
	return w.b
}

// Checksum is the SFNT table checksum of b padded with zeros.
func Checksum(b []byte) uint32 {
	var sum uint32
	for i := 0; i < len(b); i += 4 {
		var x [4]byte
		copy(x[:], b[i:])
		sum += binary.BigEndian.Uint32(x[:])
	}
	return sum
}

func buildGlyf(s Spec, r *simrt.Rand, m *Model, tables map[string][]byte, xmins []int16) int {
	n := s.Glyphs
	var glyf buf
	offsets := make([]uint32, n+1)
	depth := make([]int, n)
	composite := make([]bool, n)
	pad := 2
	if s.LocaPad == 4 {
		pad = 4
	} else if s.LocaPad == 1 && s.LongLoca {
		pad = 1
	}
	for i := 0; i < n; i++ {
		g := r.Fork()
		switch {
		case g.Bool(s.Empty):
			m.Empty[i] = true
		case i > 2 && g.Bool(s.Composite):
			// components refer to glyphs that came before, never to .notdef
			k := 1 + g.Intn(3)
			if s.MaxComp {
				k = 1 + g.Intn(12)
			}
			var comps []uint16
			var w buf
			w.u16(-1 & 0xffff)
			xmins[i] = int16(g.Range(-50, 100))
			w.u16(int(xmins[i]))
			w.u16(g.Range(-50, 0) & 0xffff)
			w.u16(g.Range(400, 700))
			w.u16(g.Range(400, 900))
			instr := s.Instr && g.Bool(50)
			for c := 0; c < k; c++ {
				sub := 1 + g.Intn(i-1)
				for try := 0; try < 20 && (composite[sub] && (!s.Deep || depth[sub] >= 3)); try++ {
					sub = 1 + g.Intn(i-1)
				}
				if composite[sub] && (!s.Deep || depth[sub] >= 3) {
					sub = 1
					if composite[1] {
						sub = 2
					}
				}
				comps = append(comps, uint16(sub))
				if depth[i] < depth[sub]+1 {
					depth[i] = depth[sub] + 1
				}
				flags := 0x0002 | 0x0004
				dx, dy := g.Range(-100, 100), g.Range(-100, 100)
				if g.Bool(40) {
					flags |= 0x0001
					dx, dy = g.Range(-400, 400), g.Range(-400, 400)
				}
				tr := g.Intn(8)
				switch tr {
				case 0:
					flags |= 0x0008
				case 1:
					flags |= 0x0040
				case 2:
					flags |= 0x0080
				}
				if c+1 < k {
					flags |= 0x0020
				} else if instr {
					flags |= 0x0100
				}
				if c == 0 && g.Bool(20) {
					flags |= 0x0200 // USE_MY_METRICS
				}
				if s.Bounds && g.Bool(30) {
					flags |= []int{0x0800, 0x1000, 0x0010, 0xE000}[g.Intn(4)]
				}
				if s.Bounds && instr && g.Bool(30) {
					flags |= 0x0100
				}
				if g.Bool(s.Overlap) {
					flags |= 0x0400
				}
				w.u16(flags)
				w.u16(sub)
				if flags&1 != 0 {
					w.u16(dx & 0xffff)
					w.u16(dy & 0xffff)
				} else {
					w.u8(dx & 0xff)
					w.u8(dy & 0xff)
				}
				f := func() int { return g.Range(-16384, 24576) & 0xffff }
				switch tr {
				case 0:
					w.u16(f())
				case 1:
					w.u16(f())
					w.u16(f())
				case 2:
					w.u16(f())
					w.u16(f())
					w.u16(f())
					w.u16(f())
				}
			}
			if instr {
				l := g.Intn(9)
				if s.Bounds && g.Bool(40) {
					l = edges[g.Intn(len(edges))]
				}
				w.u16(l)
				for j := 0; j < l; j++ {
					w.u8(g.Intn(256))
				}
			}
			composite[i] = true
			m.Comps[i] = comps
			if s.Trail && g.Bool(10) {
				w.bytes([]byte{0, 0, 0, 0})
			}
			glyf.bytes(w.b)
		default:
			glyf.bytes(simpleGlyph(s, g, &xmins[i]))
		}
		for len(glyf.b)%pad != 0 {
			glyf.u8(0)
		}
		offsets[i+1] = uint32(len(glyf.b))
	}
	if len(glyf.b) == 0 {
		glyf.u16(0) // an empty table is legal only in theory
	}
	if s.Trail {
		for i := r.Intn(12); i > 0; i-- {
			glyf.u16(0xABCD)
		}
	}
	var loca buf
	for _, o := range offsets {
		if s.LongLoca {
			loca.u32(o)
		} else {
			loca.u16(int(o / 2))
		}
	}
	if s.Trail {
		for i := r.Intn(4); i > 0; i-- {
			loca.u16(0)
		}
	}
	tables["glyf"], tables["loca"] = glyf.b, loca.b
	return len(glyf.b)
}

// edges are lengths at which the encodings of WOFF2 and TrueType change.
var edges = []int{1, 2, 127, 128, 252, 253, 254, 255, 256, 257, 505, 506, 507, 508, 509, 510, 511, 512, 513, 761, 762, 763, 764, 765, 1024}

func simpleGlyph(s Spec, g *simrt.Rand, xmin *int16) []byte {
	var w buf
	if s.Bounds && g.Bool(5) { // data without contours
		w.bytes(make([]byte, 10))
		w.u16(0)
		return w.b
	}
	nc := 1 + g.Intn(3)
	overlap := g.Bool(s.Overlap)
	span := 300
	if s.BigCoords {
		span = 6000
	}
	type pt struct {
		x, y int
		on   bool
	}
	var pts []pt
	var ends []int
	for c := 0; c < nc; c++ {
		k := 3 + g.Intn(6)
		if g.Bool(3) {
			k = 40 + g.Intn(300)
		}
		same := false
		if s.Bounds && g.Bool(40) {
			k = edges[2+g.Intn(len(edges)-2)]
			same = g.Bool(70)
		}
		x, y := g.Range(-50, 500), g.Range(-200, 700)
		if same { // all points have the same flags
			x, y = -8000, 3000
			dx, dy := g.Range(-3, 12), g.Range(-3, 12)
			on := g.Bool(50)
			for i := 0; i < k; i++ {
				pts = append(pts, pt{x, y, on})
				x += dx
				y += dy
				if g.Bool(1) {
					on = !on
				}
			}
			ends = append(ends, len(pts)-1)
			continue
		}
		for i := 0; i < k; i++ {
			pts = append(pts, pt{x, y, i == 0 && !g.Bool(10) || g.Bool(60)})
			if s.Bounds && g.Bool(50) {
				d := func() int {
					return []int{0, 1, 64, 65, 66, 255, 256, 257, 768, 769, 770, 1279, 1280, 1281, 4095, 4096, 4097}[g.Intn(17)] * (1 - 2*g.Intn(2))
				}
				x += d()
				y += d()
			}
			switch g.Intn(5) {
			case 0:
				x += g.Range(-span, span)
			case 1:
				y += g.Range(-span, span)
			case 2: // same point
				if g.Bool(80) {
					x += 7
				}
			default:
				x += g.Range(-span, span)
				y += g.Range(-span, span)
			}
			if x > 12000 || x < -12000 {
				x = g.Range(-100, 100)
			}
			if y > 12000 || y < -12000 {
				y = g.Range(-100, 100)
			}
		}
		ends = append(ends, len(pts)-1)
	}
	x0, y0, x1, y1 := pts[0].x, pts[0].y, pts[0].x, pts[0].y
	for _, p := range pts {
		x0, y0, x1, y1 = min(x0, p.x), min(y0, p.y), max(x1, p.x), max(y1, p.y)
	}
	if g.Bool(8) { // a bounding box that is not the tight one
		x0 -= g.Intn(30)
		y1 += g.Intn(30)
	}
	*xmin = int16(x0)
	w.u16(nc)
	w.u16(x0 & 0xffff)
	w.u16(y0 & 0xffff)
	w.u16(x1 & 0xffff)
	w.u16(y1 & 0xffff)
	for _, e := range ends {
		w.u16(e)
	}
	il := 0
	if s.Instr && g.Bool(60) {
		il = g.Intn(30)
		if s.Bounds && g.Bool(60) {
			il = edges[g.Intn(len(edges))]
		}
	}
	if g.Bool(s.Huge) {
		il = []int{20000, 32766, 32767, 32768, 65535, 60000}[g.Intn(6)]
	}
	w.u16(il)
	for i := 0; i < il; i++ {
		w.u8(g.Intn(256))
	}
	var flags []int
	var xs, ys buf
	px, py := 0, 0
	loose := g.Bool(20) // long forms where short ones would do
	for i, p := range pts {
		f := 0
		if p.on {
			f |= 1
		}
		if overlap && i == 0 {
			f |= 0x40
		}
		enc := func(d int, out *buf, short, same int) {
			if d == 0 && !(loose && g.Bool(30)) {
				f |= same
			} else if -256 < d && d < 256 && !(loose && g.Bool(30)) {
				f |= short
				if d >= 0 {
					f |= same
					out.u8(d)
				} else {
					out.u8(-d)
				}
			} else {
				out.u16(d & 0xffff)
			}
		}
		enc(p.x-px, &xs, 0x02, 0x10)
		enc(p.y-py, &ys, 0x04, 0x20)
		px, py = p.x, p.y
		flags = append(flags, f)
	}
	for i := 0; i < len(flags); {
		j := i + 1
		for j < len(flags) && flags[j] == flags[i] && j-i < 256 {
			j++
		}
		if j-i > 2 && !loose {
			w.u8(flags[i] | 8)
			w.u8(j - i - 1)
			i = j
		} else {
			w.u8(flags[i])
			i++
		}
	}
	w.bytes(xs.b)
	w.bytes(ys.b)
	return w.b
}

func buildCmap(s Spec, r *simrt.Rand, m *Model, tables map[string][]byte) {
	n := s.Glyphs
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if s.Scramble {
		p := r.Perm(n)
		order = p
	}
	c := rune(s.RuneBase)
	if c == 0 {
		c = 33
	}
	kinds := s.Cmap
	if kinds == 0 {
		kinds = 1
	}
	limit := rune(0x10FFFF)
	if kinds&2 == 0 {
		limit = 0xFFF0
	}
	if kinds&^8 == 0 || kinds == 4 {
		limit = 255
		if kinds == 4 {
			limit = 0xFFF0
		}
	}
	for _, g := range order {
		if g == 0 {
			continue
		}
		k := 1
		if r.Bool(s.MultiMap) {
			k = 2 + r.Intn(2)
		} else if r.Bool(5) {
			k = 0
		}
		for ; k > 0; k-- {
			if c >= 0xD800 && c < 0xE000 {
				c = 0xE000
			}
			if c > limit {
				break
			}
			if kinds&^8 == 0 && g > 255 {
				break
			}
			m.Runes[c] = uint16(g)
			c++
			if s.RuneGap > 0 && r.Bool(s.RuneGap) {
				c += rune(1 + r.Intn(60))
				if kinds&2 != 0 && r.Bool(10) {
					c += 0x8000
				}
			}
		}
	}
	var rs []rune
	for c := range m.Runes {
		rs = append(rs, c)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })

	type sub struct {
		pid, eid int
		b        []byte
	}
	var subs []sub
	if kinds&1 != 0 {
		b := format4(r, rs, m.Runes)
		subs = append(subs, sub{0, 3, b}, sub{3, 1, b})
	}
	if kinds&2 != 0 {
		b := format12(rs, m.Runes)
		subs = append(subs, sub{0, 4, b}, sub{3, 10, b})
	}
	if kinds&4 != 0 {
		var lo, hi rune = -1, -1
		for _, c := range rs {
			if c > 0xffff {
				break
			}
			if lo < 0 {
				lo = c
			}
			if c-lo > 3000 {
				break
			}
			hi = c
		}
		if lo < 0 {
			lo, hi = 33, 33
		}
		var w buf
		w.u16(6)
		w.u16(10 + 2*int(hi-lo+1))
		w.u16(0)
		w.u16(int(lo))
		w.u16(int(hi - lo + 1))
		for c := lo; c <= hi; c++ {
			w.u16(int(m.Runes[c]))
		}
		subs = append(subs, sub{1, 1, w.b})
	}
	if kinds&8 != 0 {
		var w buf
		w.u16(0)
		w.u16(262)
		w.u16(0)
		for c := rune(0); c < 256; c++ {
			g := m.Runes[c]
			if g > 255 {
				g = 0
			}
			w.u8(int(g))
		}
		subs = append(subs, sub{1, 0, w.b})
	}
	if kinds == 4 || kinds == 8 || kinds == 12 {
		// only what these can hold is mapped
		for c, g := range m.Runes {
			if kinds == 8 && (c > 255 || g > 255) {
				delete(m.Runes, c)
			}
			if kinds&4 != 0 && (c > 0xffff || c-rs[0] > 3000) {
				delete(m.Runes, c)
			}
		}
	}
	sort.SliceStable(subs, func(i, j int) bool {
		if subs[i].pid != subs[j].pid {
			return subs[i].pid < subs[j].pid
		}
		return subs[i].eid < subs[j].eid
	})
	var w buf
	w.u16(0)
	w.u16(len(subs))
	off := 4 + 8*len(subs)
	var data buf
	seen := map[*byte]int{}
	for _, sb := range subs {
		o, ok := seen[&sb.b[0]]
		if !ok {
			o = off + len(data.b)
			seen[&sb.b[0]] = o
			data.bytes(sb.b)
			for len(data.b)%4 != 0 {
				data.u8(0)
			}
		}
		w.u16(sb.pid)
		w.u16(sb.eid)
		w.u32(uint32(o))
	}
	w.bytes(data.b)
	tables["cmap"] = w.b
}

func format4(r *simrt.Rand, rs []rune, mp map[rune]uint16) []byte {
	type seg struct {
		a, b  rune
		delta bool
	}
	var segs []seg
	for i := 0; i < len(rs) && rs[i] < 0xFFFF; {
		j := i + 1
		contiguous := true
		for j < len(rs) && rs[j] == rs[j-1]+1 && rs[j] < 0xFFFF && j-i < 200 {
			c := mp[rs[j]] == mp[rs[j-1]]+1
			if !c && contiguous && j-i > 4 {
				break
			}
			contiguous = contiguous && c
			j++
		}
		segs = append(segs, seg{rs[i], rs[j-1], contiguous && !r.Bool(20)})
		i = j
	}
	var ids buf
	n := len(segs) + 1
	var ends, starts, deltas, offs buf
	for i, sg := range segs {
		ends.u16(int(sg.b))
		starts.u16(int(sg.a))
		if sg.delta {
			deltas.u16((int(mp[sg.a]) - int(sg.a)) & 0xffff)
			offs.u16(0)
		} else {
			deltas.u16(0)
			offs.u16(2*(n-i) + len(ids.b))
			for c := sg.a; c <= sg.b; c++ {
				ids.u16(int(mp[c]))
			}
		}
	}
	ends.u16(0xffff)
	starts.u16(0xffff)
	deltas.u16(1)
	offs.u16(0)
	es := int(math.Log2(float64(n)))
	sr := 2 << es
	var w buf
	w.u16(4)
	w.u16(16 + 8*n + len(ids.b))
	w.u16(0)
	w.u16(2 * n)
	w.u16(sr)
	w.u16(es)
	w.u16(2*n - sr)
	w.bytes(ends.b)
	w.u16(0)
	w.bytes(starts.b)
	w.bytes(deltas.b)
	w.bytes(offs.b)
	w.bytes(ids.b)
	return w.b
}

func format12(rs []rune, mp map[rune]uint16) []byte {
	var groups buf
	k := 0
	for i := 0; i < len(rs); {
		j := i + 1
		for j < len(rs) && rs[j] == rs[j-1]+1 && mp[rs[j]] == mp[rs[j-1]]+1 {
			j++
		}
		groups.u32(uint32(rs[i]))
		groups.u32(uint32(rs[j-1]))
		groups.u32(uint32(mp[rs[i]]))
		k++
		i = j
	}
	var w buf
	w.u16(12)
	w.u16(0)
	w.u32(uint32(16 + len(groups.b)))
	w.u32(0)
	w.u32(uint32(k))
	w.bytes(groups.b)
	return w.b
}

func utf16be(s string) []byte {
	var w buf
	for _, c := range utf16.Encode([]rune(s)) {
		w.u16(int(c))
	}
	return w.b
}

func buildName(s Spec, tables map[string][]byte) {
	fam, sty := s.Family, s.Style
	if fam == "" {
		fam = fmt.Sprintf("Gen %d", s.Seed%1000)
	}
	if sty == "" {
		sty = "Regular"
	}
	type rec struct {
		pid, eid, lang, id int
		v                  []byte
	}
	recs := []rec{
		{1, 0, 0, 1, []byte(fam)}, {1, 0, 0, 2, []byte(sty)},
		{3, 1, 0x409, 1, utf16be(fam)}, {3, 1, 0x409, 2, utf16be(sty)},
		{3, 1, 0x409, 4, utf16be(fam + " " + sty)}, {3, 1, 0x409, 6, utf16be("Gen")},
	}
	if s.Pref {
		recs = append(recs, rec{3, 1, 0x409, 16, utf16be(fam)}, rec{3, 1, 0x409, 17, utf16be(sty)})
		recs[2].v = utf16be(fam + " Legacy")
		recs[0].v = []byte(fam + " Legacy")
		if s.NameVar&64 != 0 {
			recs[3].v = utf16be("Bold Italic")
			if s.NameVar&4 != 0 {
				recs[3].v = utf16be("Legacy Style")
			}
		}
	}
	if s.NameVar&32 != 0 { // names in other languages before and after the English ones
		lang := func(id int, suffix, style string) (rs []rec) {
			rs = []rec{{3, 1, id, 1, utf16be(fam + suffix)}, {3, 1, id, 2, utf16be(style)}}
			if s.NameVar&8 != 0 {
				rs = append(rs, rec{3, 1, id, 16, utf16be(fam + suffix + " X")}, rec{3, 1, id, 17, utf16be(style)})
			}
			return
		}
		recs = append(recs[:2:2], append(append(lang(0x403, " Lletra", "Negreta"), lang(0x407, " Schrift", "Italic")...), recs[2:]...)...)
		recs = append(recs, lang(0x40C, " Police", "Gras")...)
		if s.NameVar&1 != 0 {
			recs = append(recs, lang(0xC0A, " Letra", "Bold")...)
		}
	}
	if s.NameVar&2 != 0 {
		recs = recs[2:] // Windows only
	}
	if s.NameVar&4 != 0 { // Unicode platform first
		recs = append([]rec{{0, 3, 0, 1, utf16be("Unicode " + fam)}, {0, 3, 0, 2, utf16be("Condensed")}}, recs...)
	}
	var w, data buf
	start := 6 + 12*len(recs)
	if s.NameVar&1 != 0 {
		w.u16(1)
		start += 2 + 4
	} else {
		w.u16(0)
	}
	if s.NameVar&8 != 0 {
		start += 6 // storage does not follow directly
	}
	if s.NameVar&16 != 0 {
		data.bytes(make([]byte, 5000))
	}
	w.u16(len(recs))
	w.u16(start)
	for _, x := range recs {
		w.u16(x.pid)
		w.u16(x.eid)
		w.u16(x.lang)
		w.u16(x.id)
		w.u16(len(x.v))
		w.u16(len(data.b))
		data.bytes(x.v)
	}
	if s.NameVar&1 != 0 {
		w.u16(1) // one language tag
		w.u16(2)
		w.u16(0)
	}
	for len(w.b) < start {
		w.u8(0xEE)
	}
	w.bytes(data.b)
	tables["name"] = w.b
}

var stdNames = []string{".notdef", "space", "exclam", "quotedbl", "numbersign", "dollar", "percent", "ampersand"}

func buildNames(s Spec, r *simrt.Rand, m *Model) []string {
	n := s.Glyphs
	names := make([]string, n)
	names[0] = ".notdef"
	for i := 1; i < n; i++ {
		switch {
		case s.Names == 2 && i < len(stdNames):
			names[i] = stdNames[i]
		case s.Names == 3 && r.Bool(30):
			names[i] = "dup"
		case s.Bounds && r.Bool(15):
			names[i] = (fmt.Sprintf("g%dx%d", s.Seed%97, i) + "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")[:[]int{62, 63}[r.Intn(2)]]
		default:
			names[i] = fmt.Sprintf("g%dx%d", s.Seed%97, i)
		}
	}
	return names
}

// macintosh order indices of stdNames
var macIndex = map[string]int{".notdef": 0, "space": 3, "exclam": 4, "quotedbl": 5, "numbersign": 6, "dollar": 7, "percent": 8, "ampersand": 9}

func buildPost(s Spec, m *Model, tables map[string][]byte) {
	var w buf
	if s.Kind != "ttf" || s.Names == 0 {
		w.u32(0x00030000)
	} else if s.Names == 4 {
		w.u32(0x00010000)
	} else {
		w.u32(0x00020000)
	}
	if s.ItalicNeg {
		w.u32(0xFFF40000 + 0x4000) // -11.75
	} else {
		w.u32(0)
	}
	w.u16(-75 & 0xffff)
	w.u16(50)
	w.u32(uint32(s.Seed % 2))
	w.u32(0)
	w.u32(0)
	w.u32(0)
	w.u32(0)
	if s.Kind == "ttf" && s.Names == 4 {
		m.Names = nil // those of Macintosh
	} else if s.Kind == "ttf" && s.Names != 0 {
		w.u16(m.NumGlyphs)
		var data buf
		k := 258
		idx := map[string]int{}
		for _, name := range m.Names {
			if i, ok := macIndex[name]; ok {
				w.u16(i)
				continue
			}
			if i, ok := idx[name]; ok && s.Seed%2 == 0 {
				w.u16(i)
				continue
			}
			idx[name] = k
			w.u16(k)
			k++
			data.u8(len(name))
			data.str(name)
		}
		w.bytes(data.b)
	} else if s.Kind == "ttf" {
		m.Names = nil
	}
	tables["post"] = w.b
}

func buildOS2(s Spec, r *simrt.Rand, tables map[string][]byte) {
	v := s.OS2 - 1
	var w buf
	w.u16(v)
	w.u16(500)
	wt := s.Weight
	if wt == 0 {
		wt = 400
	}
	w.u16(wt)
	w.u16(5)
	w.u16(0)
	for i := 0; i < 11; i++ {
		w.u16(r.Range(-300, 700) & 0xffff)
	}
	for i := 0; i < 10; i++ {
		w.u8(r.Intn(9))
	}
	for i := 0; i < 4; i++ {
		w.u32(uint32(r.U64()))
	}
	w.str("TEST")
	sel := 0x0040
	if r.Bool(40) {
		sel |= 0x80
	}
	w.u16(sel)
	w.u16(33)
	w.u16(0x2000)
	w.u16(750)
	w.u16(-250 & 0xffff)
	w.u16(r.Intn(100))
	if r.Bool(20) {
		w.u16(0)
		w.u16(0)
	} else {
		w.u16(900)
		w.u16(250)
	}
	if v >= 1 {
		w.u32(1)
		w.u32(0)
	}
	if v >= 2 {
		w.u16(450)
		w.u16(700)
		w.u16(0)
		w.u16(32)
		w.u16(3)
	}
	if v == 5 {
		w.u16(8)
		w.u16(72)
	}
	tables["OS/2"] = w.b
}

func buildKern(s Spec, r *simrt.Rand, m *Model, tables map[string][]byte) {
	subs := s.KernSubs
	if subs < 1 {
		subs = 1
	}
	n := s.Glyphs
	if n < 2 {
		return
	}
	var w buf
	w.u16(0)
	odd := 0
	if s.KernOdd {
		odd = 1 + r.Intn(2)
	}
	w.u16(subs + odd)
	unsupported := func() {
		odd--
		k := 8 + r.Intn(30)
		if r.Bool(50) {
			w.u16(0)
			w.u16(6 + k)
			w.u16(0x0201) // format 2
		} else {
			w.u16(1) // unknown version
			w.u16(6 + k)
			w.u16(0x0001)
		}
		for i := 0; i < k; i++ {
			w.u8(r.Intn(256))
		}
	}
	for k := 0; k < subs; k++ {
		if odd > 0 && r.Bool(50) {
			unsupported()
		}
		pairs := map[[2]uint16]int16{}
		for i := 0; i < s.Kern; i++ {
			l, rr := 1+r.Intn(n-1), 1+r.Intn(n-1)
			if r.Bool(4) {
				l = 0
			}
			v := r.Range(-120, 120)
			if v == 0 {
				v = 11
			}
			pairs[[2]uint16{uint16(l), uint16(rr)}] = int16(v)
		}
		var keys [][2]uint16
		for p := range pairs {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i][0] != keys[j][0] {
				return keys[i][0] < keys[j][0]
			}
			return keys[i][1] < keys[j][1]
		})
		np := len(keys)
		if s.KernOdd && np > 1 && r.Bool(40) {
			i := r.Intn(np - 1)
			keys[i], keys[i+1] = keys[i+1], keys[i]
		}
		w.u16(0)
		w.u16(14 + 6*np)
		w.u8(0)
		minimum := s.KernMin && r.Bool(60)
		if minimum {
			w.u8(3)
		} else if s.KernOdd && r.Bool(30) {
			w.u8(0x11) // reserved bits
		} else {
			w.u8(1)
		}
		es := int(math.Log2(float64(np)))
		w.u16(np)
		w.u16(6 << es)
		w.u16(es)
		w.u16(6*np - 6<<es)
		for _, p := range keys {
			w.u16(int(p[0]))
			w.u16(int(p[1]))
			w.u16(int(pairs[p]) & 0xffff)
			if !minimum {
				m.Kern[p] += pairs[p]
			} else if m.Kern[p] < pairs[p] {
				m.Kern[p] = pairs[p]
			}
		}
	}
	for odd > 0 {
		unsupported()
	}
	tables["kern"] = w.b
}
