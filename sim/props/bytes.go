package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// Font bytes in containers, and what storage and transport do to them.

const (
	formPlain = iota
	formWOFF
	formWOFF2  // without transformations
	formWOFF2T // with transformations, as written by the package itself
	formEOT
	formEOTX // XORed
	formTTC
	formAFM
)

var formNames = []string{"plain", "woff", "woff2", "woff2t", "eot", "eotx", "ttc", "afm"}

var u16s = []int{0, 1, 2, 3, 4, 7, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}
var u32s = []uint32{0, 1, 2, 4, 0xFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF}

const nDamage = 16

var numbers = []string{"", "-1", "0", "-0", "1e9", "65535", "65536", "-32769", "99999999", "2147483648", "4294967296", "-9223372036854775808", "99999999999999999999", "0.0000001", "NaN", "..", "<", "<>", "<FFFFFFFFFFFFFFFFF>"}

// damage applies one fault to data at rest or in transit. It never writes to b.
func damage(b []byte, kind, a, x, y int) []byte {
	b = append([]byte(nil), b...)
	n := len(b)
	if n == 0 {
		return b
	}
	at := mod(a, n)
	span := 1 + mod(x, 600)
	end := min(n, at+span)
	put16 := func(v int) {
		if at+2 <= n {
			binary.BigEndian.PutUint16(b[at:], uint16(v))
		}
	}
	switch mod(kind, nDamage) {
	case 0: // a flipped bit
		b[at] ^= 1 << mod(x, 8)
	case 1: // an overwritten byte
		b[at] = byte(x)
	case 2: // an overwritten 16 bit word
		put16(u16s[mod(x, len(u16s))])
	case 3:
		if at+4 <= n {
			binary.BigEndian.PutUint32(b[at:], u32s[mod(x, len(u32s))])
		}
	case 4: // an offset or count that is slightly off
		if at+2 <= n {
			put16(int(binary.BigEndian.Uint16(b[at:])) + mod(x, 17) - 8)
		}
	case 5: // truncated
		b = b[:at]
	case 6: // a lost block, reads as zeros
		clear(b[at:end])
	case 7: // a removed block
		b = append(b[:at:at], b[end:]...)
	case 8: // a duplicated block
		b = append(append(append([]byte(nil), b[:end]...), b[at:end]...), b[end:]...)
	case 9: // swapped blocks
		to := mod(y, n)
		l := min(span, n-max(at, to), max(at-to, to-at))
		for i := 0; i < l; i++ {
			b[at+i], b[to+i] = b[to+i], b[at+i]
		}
	case 10: // garbage
		r := simrt.NewRand(uint64(y))
		for i := at; i < min(end, at+40); i++ {
			b[i] = byte(r.U64())
		}
	case 11: // a word of another place
		from := mod(y, n)
		if at+2 <= n && from+2 <= n {
			copy(b[at:at+2], b[from:from+2])
		}
	case 12: // trailing junk
		b = append(b, bytes.Repeat([]byte{byte(x)}, 1+mod(y, 50))...)
	case 13: // a 16 bit word close to the size of the data
		put16(n + mod(x, 9) - 4)
	case 14: // a 32 bit offset or length that is slightly off
		if at+4 <= n {
			binary.BigEndian.PutUint32(b[at:], binary.BigEndian.Uint32(b[at:])+uint32(mod(x, 17)-8))
		}
	case 15: // another number in text
		for at < n && (b[at] < '0' || b[at] > '9') {
			at++
		}
		end := at
		for end < n && b[end] >= '0' && b[end] <= '9' {
			end++
		}
		b = append(append(append([]byte(nil), b[:at]...), numbers[mod(x, len(numbers))]...), b[end:]...)
	}
	return b
}

// genDamage draws one fault. Layers: 0 the data of a table before it is put in its container, 1 the
// decompressed stream of a transformed WOFF2 file, 2 the whole file.
func genDamage(r *simrt.Rand, layer int) harness.Op {
	pos := r.Intn(1 << 20)
	if r.Bool(50) {
		pos = r.Intn(70)
	}
	kind := r.Intn(nDamage - 1)
	if layer == 2 && r.Bool(30) {
		// a field of the header or the directory
		pos = 4 * r.Intn(110)
		kind = []int{3, 3, 14}[r.Intn(3)]
	}
	if r.Bool(60) {
		pos &^= 1
	}
	return harness.Op{K: "d", A: []int{layer, kind, pos, r.Intn(1000), r.Intn(1 << 16), r.Intn(64)}}
}

// container builds the bytes a reader gets: the font of the case, damaged before and after it is put in
// its container. good is the container without damage.
func container(c *harness.Case, e *harness.Env, withDamage bool) (b []byte, spans []fontgen.Span) {
	form := mod(c.P["form"], len(formNames))
	r := simrt.NewRand(uint64(c.P["wrap"]))
	if form == formAFM {
		if c.P["wrap"]%7 == 0 {
			b = append([]byte(nil), harness.File(afmFiles[mod(c.P["wrap"]/7, len(afmFiles))])...)
		} else {
			b = fontgen.AFM(r)
		}
	} else {
		sfnt, _ := fontgen.Build(c.Fonts[0], harness.File)
		version, ts := fontgen.Split(sfnt)
		if c.P["headpad"] != 0 {
			for i := range ts {
				if ts[i].Tag == "head" {
					ts[i].Data = append(ts[i].Data, 0, 0)
				}
			}
			sfnt = fontgen.Join(version, ts)
		}
		damaged := false
		if withDamage && len(ts) > 0 {
			for _, o := range c.Ops {
				if o.K == "d" && o.Arg(0) == 0 {
					t := &ts[mod(o.Arg(5), len(ts))]
					t.Data = damage(t.Data, o.Arg(1), o.Arg(2), o.Arg(3), o.Arg(4))
					damaged = true
				}
			}
		}
		if damaged {
			sfnt = fontgen.Join(version, ts)
		}
		switch form {
		case formPlain:
			b = sfnt
		case formWOFF:
			b, spans = fontgen.WOFF(version, ts, r)
		case formWOFF2:
			b = fontgen.WOFF2(version, ts, r)
		case formWOFF2T:
			sfnt, _ := fontgen.Build(c.Fonts[0], harness.File)
			e.Quietly(func() {
				simtime.SetClock(simtime.Unix(1700000000, 0).UTC(), 0, nil)
				if f, err := font.ParseSFNT(sfnt, 0); err == nil {
					b, _ = f.WriteWOFF2()
				}
			})
			dir, stream, ok := fontgen.WOFF2Parts(b)
			if !ok {
				return nil, nil
			}
			if withDamage {
				for _, o := range c.Ops {
					if o.K != "d" {
						continue
					}
					switch o.Arg(0) {
					case 0, 1:
						stream = damage(stream, o.Arg(1), o.Arg(2), o.Arg(3), o.Arg(4))
					case 3:
						dir = damage(dir, o.Arg(1), o.Arg(2), o.Arg(3), o.Arg(4))
					}
				}
				b = fontgen.WOFF2Rebuild(b, dir, stream, r)
			}
		case formEOT, formEOTX:
			b = fontgen.EOT(sfnt, r, form == formEOTX)
		case formTTC:
			fonts := [][]byte{sfnt}
			for i := 1; i < len(c.Fonts); i++ {
				x, _ := fontgen.Build(c.Fonts[i], harness.File)
				fonts = append(fonts, x)
			}
			b = fontgen.TTC(fonts, r)
		}
	}
	if withDamage {
		for _, o := range c.Ops {
			if o.K == "d" && o.Arg(0) == 2 {
				b = damage(b, o.Arg(1), o.Arg(2), o.Arg(3), o.Arg(4))
			}
		}
	}
	return
}

var afmFiles = []string{"pdfcorefonts/Courier.afm", "pdfcorefonts/Symbol.afm", "pdfcorefonts/ZapfDingbats.afm", "pdfcorefonts/Times-Roman.afm"}

// ---- C09 ----

type c09 struct{}

func (c09) ID() string { return "C09" }

func genForm(r *simrt.Rand, c *harness.Case, forms ...int) int {
	form := forms[r.Intn(len(forms))]
	c.P["form"] = form
	c.P["wrap"] = 1 + r.Intn(1<<20)
	s := fontgen.Random(r, "ttf", "ttf", "cff", "cid")
	if s.Glyphs > 100 {
		s.Glyphs = 100
	}
	c.Fonts = []fontgen.Spec{s}
	if form == formTTC {
		for n := r.Intn(3); n > 0; n-- {
			c.Fonts = append(c.Fonts, fontgen.Random(r, "ttf", "cff"))
		}
		c.P["index"] = r.Intn(len(c.Fonts))
		if r.Bool(10) {
			c.P["index"] = r.Intn(5) - 1
		}
	}
	return form
}

func (c09) Gen(r *simrt.Rand, c *harness.Case) {
	c.Clock = harness.Clock{Start: 1700000000}
	form := genForm(r, c, 0, 0, 0, 0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7)
	if form == formPlain && r.Bool(3) {
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(3)]}
	}
	c.P["read"] = r.Intn(6)
	n := 1
	if r.Bool(40) {
		n = 1 + r.Intn(5)
	}
	for ; n > 0; n-- {
		layer := 0
		if r.Bool(25) || form >= formTTC {
			layer = 2
		} else if form == formWOFF2T && r.Bool(30) {
			layer = 3
		}
		d := genDamage(r, layer)
		if form == formAFM && r.Bool(60) {
			d.A[1], d.A[2] = 15, r.Intn(1<<20)
		}
		c.Ops = append(c.Ops, d)
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		k := []string{"q", "q", "sub", "sub", "mrg", "nam", "wr", "w2", "rel"}[r.Intn(9)]
		o := harness.Op{K: k}
		switch k {
		case "sub":
			o.A = []int{r.Intn(4), 0}
			for n := 1 + r.Intn(6); n > 0; n-- {
				o.A = append(o.A, r.Intn(100))
			}
			if r.Bool(15) {
				o.A = append(o.A, r.Intn(0x10000))
			}
		case "mrg", "nam":
			o.A = []int{r.Intn(4), r.Intn(1000)}
		}
		c.Ops = append(c.Ops, o)
	}
}

// queryAll asks everything about some glyphs of a font that may be damaged.
func queryAll(f *font.SFNT) {
	n := int(f.NumGlyphs())
	var ids []uint16
	for i := 0; i < n && i < 24; i++ {
		ids = append(ids, uint16(i))
	}
	for _, i := range []int{n / 2, n - 2, n - 1, n, n + 1, 0xFFFF} {
		if 0 <= i && i <= 0xFFFF {
			ids = append(ids, uint16(i))
		}
	}
	f.UnitsPerEm()
	f.VerticalMetrics()
	for _, g := range ids {
		f.GlyphIndex(rune(g))
		for _, r := range f.GlyphToUnicode(g) {
			f.GlyphIndex(r)
		}
		f.FindGlyphName(f.GlyphName(g))
		f.GlyphAdvance(g)
		f.GlyphVerticalAdvance(g)
		f.GlyphBounds(g)
		f.GlyphPath(&Rec{}, g, 0, 0, 0, 1, font.NoHinting)
		for _, h := range ids {
			f.Kerning(g, h)
		}
	}
	for _, r := range []rune{0, 'A', 0xFFFF, 0x10000, 0x10FFFF, 0x110000, -1} {
		f.GlyphIndex(r)
	}
	f.FindGlyphName("no such name")
}

func (c09) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	b, _ := container(c, e, true)
	if b == nil {
		return
	}
	form := mod(c.P["form"], len(formNames))
	e.Probe("form_" + formNames[form])
	size := uint64(len(b))
	if form == formWOFF || form == formWOFF2 || form == formWOFF2T {
		size += 200_000 // decompressed data counts
	}
	limit := 60_000_000 + 3000*size
	do := func(what string, fn func()) bool {
		o := e.Do(limit, fn)
		if !o.OK() {
			e.Fail(o.Class(), "%s ended in %s: %s\n%s", what, o.Kind, o.Msg, o.Stack)
			return false
		}
		return true
	}
	e.Nontrivial = true
	if form == formAFM {
		var afm *font.AFM
		var err error
		if !do("reading the AFM file", func() { afm, err = font.ParseAFM(b) }) || err != nil || afm == nil {
			if err != nil {
				e.Probe("refused")
				e.Event("refused %v", err)
			}
			return
		}
		e.Probe("accepted")
		do("querying the AFM font", func() {
			n := int(afm.NumGlyphs())
			for _, i := range []int{0, 1, n / 2, n - 1, n, 0xFFFF} {
				g := uint16(i)
				afm.FindGlyphName(afm.GlyphName(g))
				afm.GlyphAdvance(g)
				afm.GlyphBounds(g)
				afm.GlyphIndex(rune(i))
				afm.Kerning(g, 1)
			}
		})
		return
	}
	var f *font.SFNT
	var err error
	how := mod(c.P["read"], 6)
	read := func(b []byte, embedded bool) (f *font.SFNT, err error) {
		if form != formPlain && form != formTTC || how == 4 {
			if how == 5 {
				var r *bytes.Reader
				if r, err = font.NewSFNTReader(bytes.NewReader(b)); err != nil {
					return nil, err
				}
				b = make([]byte, r.Len())
				r.Read(b)
			} else if b, err = font.ToSFNT(b); err != nil {
				return nil, err
			}
		}
		if embedded {
			return font.ParseEmbeddedSFNT(b, c.P["index"])
		}
		return font.ParseSFNT(b, c.P["index"])
	}
	if !do("detecting the type", func() { font.MediaType(b); font.Extension(b) }) {
		return
	}
	if !do("reading", func() { f, err = read(b, how == 1) }) {
		return
	}
	if err != nil {
		e.Probe("refused")
		e.Event("refused %v", err)
		return
	}
	if f == nil {
		e.Fail("neither font nor error", "reading returned nil without error")
		return
	}
	e.Probe("accepted")
	for i, o := range c.Ops {
		var err error
		what := fmt.Sprintf("operation %d (%v)", i, o)
		ok := true
		n := int(f.NumGlyphs())
		switch o.K {
		case "q":
			ok = do(what, func() { queryAll(f) })
		case "sub":
			var ids []uint16
			for _, x := range o.A[min(1, len(o.A)):] {
				if x < 100 {
					x = mod(x, n)
				}
				ids = append(ids, uint16(x))
			}
			opt := font.SubsetOptions{Tables: [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables, font.KeepAllTables}[mod(o.Arg(0), 4)]}
			var sub *font.SFNT
			if ok = do(what, func() { sub, err = f.Subset(ids, opt) }); ok && err == nil {
				if ok = do(what+" subset", func() { queryAll(sub); sub.Write() }); ok {
					f = sub
				}
			}
		case "mrg":
			var g *font.SFNT
			var target = f
			switch mod(o.Arg(0), 4) {
			case 0: // with an undamaged font
				good, _ := fontgen.Build(c.Fonts[0], harness.File)
				e.Quietly(func() { g, _ = font.ParseSFNT(good, 0) })
			case 1: // with another reading of the damaged font
				e.Quietly(func() { g, _ = read(b, how == 1) })
			case 2: // into an undamaged font
				s := c.Fonts[0]
				s.RuneBase = 0x2000
				good, _ := fontgen.Build(s, harness.File)
				e.Quietly(func() { target, _ = font.ParseSFNT(good, 0) })
				g = f
			case 3: // a renumbered part of itself
				e.Quietly(func() {
					if h, err := read(b, how == 1); err == nil {
						g, _ = h.Subset([]uint16{0, uint16(mod(o.Arg(1), n))}, font.SubsetOptions{Tables: font.KeepAllTables})
					}
				})
			}
			if g != nil && target != nil {
				if ok = do(what, func() { err = target.Merge(g, font.MergeOptions{}) }); ok {
					ok = do(what+" merged", func() { queryAll(target); target.Write() })
				}
			}
		case "nam":
			names := make([]string, n)
			if o.Arg(0) == 1 {
				names = names[:n/2]
			}
			for i := range names {
				names[i] = fmt.Sprintf("n%d", i%(1+mod(o.Arg(1), 100)))
			}
			ok = do(what, func() { err = f.SetGlyphNames(names) })
		case "wr":
			ok = do(what, func() { f.Write() })
		case "w2":
			ok = do(what, func() { _, err = f.WriteWOFF2() })
		case "rel":
			var g *font.SFNT
			if ok = do(what, func() { g, err = font.ParseSFNT(f.Write(), 0) }); ok && err == nil {
				f = g
			}
		default:
			continue
		}
		if !ok {
			return
		}
		e.Event("%s %v", what, err)
		if o.K != "q" {
			e.Probe("op_" + o.K)
		}
	}
}
