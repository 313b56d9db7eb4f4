package fontgen

import (
	"fmt"

	"github.com/tdewolff/font/zzverif/simrt"
)

func index(items [][]byte) []byte {
	var w buf
	w.u16(len(items))
	if len(items) == 0 {
		return w.b
	}
	total := 1
	for _, it := range items {
		total += len(it)
	}
	size := 1
	for size < 4 && total >= 1<<(8*size) {
		size++
	}
	w.u8(size)
	put := func(v int) {
		for k := size - 1; k >= 0; k-- {
			w.u8(v >> (8 * k))
		}
	}
	off := 1
	put(off)
	for _, it := range items {
		off += len(it)
		put(off)
	}
	for _, it := range items {
		w.bytes(it)
	}
	return w.b
}

func num(w *buf, v int) {
	switch {
	case v >= -107 && v <= 107:
		w.u8(v + 139)
	case v >= 108 && v <= 1131:
		v -= 108
		w.u8(247 + v>>8)
		w.u8(v)
	case v >= -1131 && v <= -108:
		v = -v - 108
		w.u8(251 + v>>8)
		w.u8(v)
	default:
		w.u8(28)
		w.u16(v & 0xffff)
	}
}

// dictNum writes a five byte integer, so that sizes do not depend on values.
func dictNum(w *buf, v int) { w.u8(29); w.u32(uint32(v)) }

type dictOp struct {
	op   int
	kind byte // s string, b flag, i integer, n number
	n    int  // number of operands, or -1
}

var topOps = []dictOp{{0, 's', 1}, {1, 's', 1}, {256, 's', 1}, {2, 's', 1}, {3, 's', 1}, {4, 's', 1}, {257, 'b', 1}, {258, 'n', 1}, {259, 'n', 1},
	{260, 'n', 1}, {261, 'i', 1}, {263, 'n', 6}, {13, 'i', 1}, {5, 'n', 4}, {264, 'n', 1}, {14, 'i', -1}, {277, 's', 1}, {278, 's', 1}, {279, 'i', -1}}

var privateOps = []dictOp{{6, 'n', -1}, {7, 'n', -1}, {8, 'n', -1}, {9, 'n', -1}, {265, 'n', 1}, {266, 'n', 1}, {267, 'n', 1}, {10, 'n', 1}, {11, 'n', 1},
	{268, 'n', -1}, {269, 'n', -1}, {270, 'b', 1}, {273, 'i', 1}, {274, 'n', 1}, {275, 'i', 1}, {20, 'n', 1}, {21, 'n', 1}}

// dictEntry writes an operator with arbitrary operands.
func dictEntry(w *buf, r *simrt.Rand, o dictOp) {
	n := o.n
	if n < 0 {
		n = 1 + r.Intn(14)
		if r.Bool(5) {
			n = 48
		}
	}
	for ; n > 0; n-- {
		integer := func() {
			v := []int{0, 107, 108, 1131, 1132, 32767, 32768, 65535, 65536, 99999, 100000, 123456789, 1<<31 - 1}[r.Intn(13)]
			if r.Bool(50) {
				v = r.Intn(3000)
			}
			if r.Bool(40) {
				v = -v
			}
			if v >= -32768 && v <= 32767 && r.Bool(70) {
				num(w, v)
			} else {
				dictNum(w, v)
			}
		}
		switch {
		case o.kind == 'b':
			num(w, r.Intn(2))
		case o.kind == 'i' || r.Bool(50):
			integer()
		default:
			dictReal(w, r)
		}
	}
	if o.op >= 256 {
		w.u8(12)
	}
	w.u8(o.op)
}

// dictReal writes a real number in a random spelling.
func dictReal(w *buf, r *simrt.Rand) {
	var nib []int
	digits := func(n int) {
		for ; n > 0; n-- {
			nib = append(nib, r.Intn(10))
		}
	}
	if r.Bool(30) {
		nib = append(nib, 14)
	}
	i := r.Intn(5)
	digits(i)
	if r.Bool(80) || i == 0 {
		nib = append(nib, 10)
		digits(1 + r.Intn(9))
	}
	if r.Bool(30) {
		nib = append(nib, 11+r.Intn(2))
		digits(1)
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	w.u8(30)
	for k := 0; k < len(nib); k += 2 {
		w.u8(nib[k]<<4 | nib[k+1])
	}
}

func bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

type csGen struct {
	s          Spec
	r          *simrt.Rand
	local, glo int // number of subroutines
}

// path emits some drawing operators that leave the stack empty.
func (c *csGen) path(w *buf, k int) {
	r := c.r
	d := func() int { return r.Range(-150, 150) }
	for ; k > 0; k-- {
		switch r.Intn(12) {
		case 0, 1:
			num(w, d())
			num(w, d())
			w.u8(5) // rlineto
		case 2:
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				num(w, d())
			}
			w.u8(6) // hlineto
		case 3:
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				num(w, d())
			}
			w.u8(7) // vlineto
		case 4, 5:
			for i, n := 0, 6*(1+r.Intn(2)); i < n; i++ {
				num(w, d())
			}
			w.u8(8) // rrcurveto
		case 6:
			for i := 0; i < 4; i++ {
				num(w, d())
			}
			w.u8(27) // hhcurveto
		case 7:
			for i := 0; i < 5; i++ {
				num(w, d())
			}
			w.u8(26) // vvcurveto
		case 8:
			for i := 0; i < 4; i++ {
				num(w, d())
			}
			w.u8(31) // hvcurveto
		case 9:
			for i := 0; i < 4; i++ {
				num(w, d())
			}
			w.u8(30) // vhcurveto
		case 10:
			for i := 0; i < 8; i++ {
				num(w, d())
			}
			w.u8(24) // rcurveline
		case 11:
			for i := 0; i < 7; i++ {
				num(w, d())
			}
			w.u8(12)
			w.u8(34) // hflex
		}
	}
}

func (c *csGen) call(w *buf, global bool, i int) {
	op, v := 10, i-bias(c.local)
	if global {
		op, v = 29, i-bias(c.glo)
	}
	if c.s.LongNums && c.r.Bool(30) {
		if c.r.Bool(60) {
			w.u8(28)
			w.u16(v & 0xffff)
		} else {
			w.u8(255)
			w.u16(v & 0xffff)
			w.u16(0)
		}
	} else {
		num(w, v)
	}
	w.u8(op)
}

func (c *csGen) subr(global bool, i int) []byte {
	var w buf
	c.path(&w, 1+c.r.Intn(2))
	for k := 0; k < c.s.BigSub; k++ {
		num(&w, c.r.Range(-9, 9))
		w.u8(6)
	}
	// nest: local subroutines may call lower ones and global ones, global ones lower global ones
	if i > 0 && c.r.Bool(25) {
		c.call(&w, global, c.r.Intn(min(i, 40)))
	} else if !global && c.glo > 0 && c.r.Bool(20) {
		c.call(&w, true, c.r.Intn(c.glo))
	}
	w.u8(11) // return
	return w.b
}

func (c *csGen) glyph(i int, empty bool) []byte {
	r := c.r
	var w buf
	if r.Bool(50) {
		num(&w, r.Range(-100, 100)) // width
	}
	if empty {
		w.u8(14)
		return w.b
	}
	hints := r.Intn(3)
	mask := false
	if hints > 0 {
		for k := 0; k < hints; k++ {
			num(&w, r.Range(0, 50))
			num(&w, r.Range(10, 60))
		}
		if r.Bool(40) {
			mask = true
			w.u8(18) // hstemhm
			num(&w, 10)
			num(&w, 30)
			if r.Bool(50) {
				w.u8(23) // vstemhm
			}
			w.u8(19) // hintmask, vstem implied
			w.u8(0xC0)
		} else {
			w.u8(1) // hstem
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			num(&w, r.Range(-50, 300))
			num(&w, r.Range(-50, 300))
			w.u8(21)
		case 1:
			num(&w, r.Range(-50, 300))
			w.u8(22)
		case 2:
			num(&w, r.Range(-50, 300))
			w.u8(4)
		}
		c.path(&w, 1+r.Intn(3))
		if c.local > 0 && r.Bool(60) {
			c.call(&w, false, c.pick(c.local))
		}
		if c.glo > 0 && r.Bool(50) {
			c.call(&w, true, c.pick(c.glo))
		}
		if mask && r.Bool(30) {
			w.u8(19)
			w.u8(0x80)
		}
		if r.Bool(30) {
			c.path(&w, 1)
		}
	}
	w.u8(14)
	return w.b
}

// pick prefers the first and last subroutines: the ends of the encodings.
func (c *csGen) pick(n int) int {
	switch c.r.Intn(4) {
	case 0:
		return n - 1 - c.r.Intn(min(n, 3))
	case 1:
		return c.r.Intn(min(n, 3))
	}
	return c.r.Intn(n)
}

var cffStd = []string{".notdef", "space", "exclam", "quotedbl", "numbersign", "dollar", "percent", "ampersand"}

func buildCFF(s Spec, r *simrt.Rand, m *Model) []byte {
	n := s.Glyphs
	fds := 1
	if s.Kind == "cid" {
		fds = max(1, s.FDs)
	}
	gen := &csGen{s: s, r: r, glo: s.GSubrs}
	var gsubrs [][]byte
	for i := 0; i < s.GSubrs; i++ {
		gsubrs = append(gsubrs, gen.subr(true, i))
	}
	fdOf := make([]int, n)
	for i := range fdOf {
		fdOf[i] = i * fds / n
	}
	locals := make([][][]byte, fds)
	for f := range locals {
		k := s.Subrs
		if f > 0 {
			k = s.Subrs / (f + 1)
		}
		gen.local = k
		for i := 0; i < k; i++ {
			locals[f] = append(locals[f], gen.subr(false, i))
		}
	}
	var charstrings [][]byte
	for i := 0; i < n; i++ {
		empty := r.Bool(s.Empty)
		m.Empty[i] = empty
		gen.local = len(locals[fdOf[i]])
		charstrings = append(charstrings, gen.glyph(i, empty))
	}

	var strs [][]byte
	sid := func(v string) int {
		strs = append(strs, []byte(v))
		return 391 + len(strs) - 1
	}
	var top buf
	ent := func(op int, vals ...int) {
		for _, v := range vals {
			dictNum(&top, v)
		}
		if op >= 256 {
			top.u8(12)
		}
		top.u8(op)
	}
	if s.Kind == "cid" {
		ent(256+30, sid("Adobe"), sid("Identity"), 0)
	}
	if s.Private {
		ent(2, sid("Generated Full Name"))
		ent(3, sid("Generated"))
		ent(256+3, -120)
		ent(256+4, 60)
		ent(5, -100, -250, 1100, 900)
		// real number: ItalicAngle -11.5
		top.bytes([]byte{30, 0xE1, 0x1A, 0x5F, 12, 2})
	}
	dr := simrt.NewRand(uint64(s.Dict))
	if s.Dict != 0 {
		for _, op := range dr.Perm(len(topOps)) {
			if !dr.Bool(50) {
				continue
			}
			switch o := topOps[op]; o.kind {
			case 's':
				str := fmt.Sprintf("String %d", o.op)
				if dr.Bool(20) {
					ent(o.op, dr.Intn(391))
				} else if dr.Bool(10) {
					ent(o.op, sid(""))
				} else {
					ent(o.op, sid(str))
				}
			default:
				dictEntry(&top, dr, o)
			}
		}
	}
	// charset
	var cs buf
	ranges := func(sids []int) {
		if s.Charset == 0 {
			cs.u8(0)
			for _, v := range sids {
				cs.u16(v)
			}
			return
		}
		cs.u8(s.Charset)
		for i := 0; i < len(sids); {
			j := i + 1
			for j < len(sids) && sids[j] == sids[j-1]+1 && (s.Charset == 2 || j-i < 256) {
				j++
			}
			cs.u16(sids[i])
			if s.Charset == 1 {
				cs.u8(j - i - 1)
			} else {
				cs.u16(j - i - 1)
			}
			i = j
		}
	}
	var sids []int
	if s.Kind == "cid" {
		for i := 1; i < n; i++ {
			sids = append(sids, i) // CIDs
		}
		m.Names = nil
	} else {
		for i := 1; i < n; i++ {
			if s.StdNames && i < len(cffStd) {
				sids = append(sids, i)
				m.Names[i] = cffStd[i]
			} else {
				sids = append(sids, sid(m.Names[i]))
			}
		}
	}
	ranges(sids)
	private := func(f int) []byte {
		var w buf
		if s.Private {
			for _, v := range []int{-10, 10, 500, 10} {
				num(&w, v)
			}
			w.u8(6) // BlueValues
			num(&w, 40)
			w.u8(10)
			w.bytes([]byte{30, 0xA0, 0x37, 0xFF, 12, 9}) // BlueScale .037
			num(&w, 1)
			w.u8(12)
			w.u8(14) // ForceBold
		}
		num(&w, 500)
		w.u8(20)
		num(&w, 550+f)
		w.u8(21)
		if s.Dict != 0 {
			for _, op := range dr.Perm(len(privateOps)) {
				if dr.Bool(50) {
					dictEntry(&w, dr, privateOps[op])
				}
			}
		}
		if len(locals[f]) > 0 {
			dictNum(&w, len(w.b)+6)
			w.u8(19)
		}
		return w.b
	}
	// layout: header, name, top, strings, gsubrs, charset, charstrings, [fdselect, fdarray], privates
	var head buf
	head.bytes([]byte{1, 0, 4, 4})
	head.bytes(index([][]byte{[]byte(fmt.Sprintf("Gen%d", s.Seed%1000))}))
	strIdx := index(strs)
	gIdx := index(gsubrs)
	csIdx := index(charstrings)
	extra := 12 // charset and charstrings entries: 5+1 each
	if s.Kind == "cid" {
		extra += 2 * 7
	} else {
		extra += 11
	}
	topLen := len(top.b) + extra
	topIdxLen := len(index([][]byte{make([]byte, topLen)}))
	pos := len(head.b) + topIdxLen + len(strIdx) + len(gIdx)
	charsetPos := pos
	pos += len(cs.b)
	charstringsPos := pos
	pos += len(csIdx)
	var tail buf
	ent(15, charsetPos)
	ent(17, charstringsPos)
	if s.Kind == "cid" {
		var sel buf
		if s.Seed%2 == 0 {
			sel.u8(0)
			for _, f := range fdOf {
				sel.u8(f)
			}
		} else {
			sel.u8(3)
			var ranges buf
			k := 0
			for i, f := range fdOf {
				if i == 0 || f != fdOf[i-1] {
					ranges.u16(i)
					ranges.u8(f)
					k++
				}
			}
			sel.u16(k)
			sel.bytes(ranges.b)
			sel.u16(n)
		}
		fdSelectPos := pos
		tail.bytes(sel.b)
		pos += len(sel.b)
		// FDArray: each FontDICT has one Private entry of 11 bytes
		fdArrayPos := pos
		fdArrayLen := len(index(make2(fds, 11)))
		pos += fdArrayLen
		var dicts [][]byte
		var privs buf
		for f := 0; f < fds; f++ {
			p := private(f)
			var d buf
			dictNum(&d, len(p))
			dictNum(&d, pos+len(privs.b))
			d.u8(18)
			dicts = append(dicts, d.b)
			privs.bytes(p)
			if len(locals[f]) > 0 {
				privs.bytes(index(locals[f]))
			}
		}
		tail.bytes(index(dicts))
		tail.bytes(privs.b)
		ent(256+37, fdSelectPos)
		ent(256+36, fdArrayPos)
	} else {
		p := private(0)
		ent(18, len(p), pos)
		tail.bytes(p)
		if len(locals[0]) > 0 {
			tail.bytes(index(locals[0]))
		}
	}
	if len(top.b) != topLen {
		panic("fontgen: top dict length")
	}
	var out buf
	out.bytes(head.b)
	out.bytes(index([][]byte{top.b}))
	out.bytes(strIdx)
	out.bytes(gIdx)
	out.bytes(cs.b)
	out.bytes(csIdx)
	out.bytes(tail.b)
	return out.b
}

func make2(n, l int) [][]byte {
	res := make([][]byte, n)
	for i := range res {
		res[i] = make([]byte, l)
	}
	return res
}
