package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"

	"github.com/golang/freetype/truetype"
	imgsfnt "golang.org/x/image/font/sfnt"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	"github.com/tdewolff/font/zzverif/simrt"
)

// ---- C04: the caller's bytes ----

type c04 struct{}

func (c04) ID() string { return "C04" }

func (c04) Gen(r *simrt.Rand, c *harness.Case) {
	c.Clock = harness.Clock{Start: 1700000000}
	form := genForm(r, c, 0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 7)
	if r.Bool(40) {
		c.P["headpad"] = 1
	}
	if r.Bool(3) && form != formAFM {
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(2)]}
	}
	if r.Bool(40) {
		for n := 1 + r.Intn(2); n > 0; n-- {
			layer := 0
			if r.Bool(30) || form >= formTTC {
				layer = 2
			}
			c.Ops = append(c.Ops, genDamage(r, layer))
		}
	}
	order := []string{"typ", "conv", "conv", "stream", "parse", "parse"}
	if form == formPlain {
		order = append(order, "embed", "freetype", "gosfnt")
	}
	for _, i := range r.Perm(len(order)) {
		c.Ops = append(c.Ops, harness.Op{K: order[i]})
	}
	for n := 1 + r.Intn(7); n > 0; n-- {
		k := []string{"q", "sub", "sub", "mrg", "mrg", "nam", "wr", "w2", "rel", "parse"}[r.Intn(10)]
		o := harness.Op{K: k, A: []int{r.Intn(8), r.Intn(8)}}
		switch k {
		case "sub":
			o.A = append(o.A, r.Intn(3))
			if r.Bool(80) {
				o.A = append(o.A, 0)
			}
			for n := 1 + r.Intn(12); n > 0; n-- {
				o.A = append(o.A, r.Intn(100))
			}
		case "mrg", "nam":
			o.A = append(o.A, r.Intn(2))
		}
		c.Ops = append(c.Ops, o)
	}
}

func sameTables(a, b map[string][]byte) string {
	tags := map[string]int{}
	for t := range a {
		tags[t] = 1
	}
	for t := range b {
		tags[t] = 1
	}
	var list []string
	for t := range tags {
		list = append(list, t)
	}
	sort.Strings(list)
	for _, t := range list {
		x, ok := a[t]
		y, ok2 := b[t]
		if ok != ok2 {
			return fmt.Sprintf("table %q in one only", t)
		} else if !bytes.Equal(x, y) {
			return fmt.Sprintf("table %q differs (%d and %d bytes)", t, len(x), len(y))
		}
	}
	return ""
}

func copyTables(m map[string][]byte) map[string][]byte {
	res := map[string][]byte{}
	for t, b := range m {
		res[t] = append([]byte(nil), b...)
	}
	return res
}

func (c04) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	b, _ := container(c, e, true)
	if b == nil {
		return
	}
	form := mod(c.P["form"], len(formNames))
	e.Probe("form_" + formNames[form])
	const limit = 1 << 40 // hangs and panics are the subject of C09
	var guards []*guard
	hand := func(b []byte, what string) []byte {
		g := newGuard(b, what)
		guards = append(guards, g)
		return g.Bytes()
	}
	in := hand(b, "the input")
	check := func(what string) bool {
		for _, g := range guards {
			if s := g.check(); s != "" {
				e.Fail("input bytes changed", "%s: %s", what, s)
				return false
			}
		}
		return true
	}
	var conv, stream [][]byte // results of conversions
	var pool []*font.SFNT
	var parsed map[string][]byte
	var convErr, parseErr string
	nconv, nparse := 0, 0
	text := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	add := func(f *font.SFNT) {
		if f != nil && len(pool) < 12 {
			pool = append(pool, f)
		}
	}
	for i, o := range c.Ops {
		var err error
		what := fmt.Sprintf("operation %d (%v)", i, o)
		ok := true
		do := func(fn func()) { ok = e.Do(limit, fn).OK() }
		pick := func(k int) *font.SFNT {
			if len(pool) == 0 {
				return nil
			}
			return pool[mod(o.Arg(k), len(pool))]
		}
		switch o.K {
		case "typ":
			do(func() { font.MediaType(in); font.Extension(in) })
		case "conv":
			if form == formAFM {
				do(func() { font.ParseAFM(in) })
				break
			}
			var r []byte
			do(func() { r, err = font.ToSFNT(in) })
			if !ok {
				break
			}
			conv = append(conv, append([]byte(nil), r...))
			if nconv++; nconv > 1 && (convErr != text(err) || !bytes.Equal(conv[0], r)) {
				e.Fail("second conversion differs", "%s: converting the same bytes gave %d bytes and %q, then %d bytes and %q", what, len(conv[0]), convErr, len(r), text(err))
				return
			}
			convErr = text(err)
			if err == nil {
				e.Nontrivial = true
				if form != formPlain && form != formTTC && i%2 == 0 {
					// the converted font is handed in again
					x := hand(r, "the converted font")
					do(func() {
						if f, err := font.ParseEmbeddedSFNT(x, c.P["index"]); err == nil {
							add(f)
						}
					})
				}
			}
		case "stream":
			if form == formAFM {
				break
			}
			do(func() {
				if r, err := font.NewSFNTReader(bytes.NewReader(in)); err == nil {
					b, _ := io.ReadAll(r)
					stream = append(stream, b)
				}
			})
		case "parse", "embed":
			if form == formAFM {
				break
			}
			var f *font.SFNT
			do(func() {
				if o.K == "embed" {
					f, err = font.ParseEmbeddedSFNT(in, c.P["index"])
				} else {
					f, err = font.ParseSFNT(in, c.P["index"])
				}
			})
			if !ok {
				break
			}
			if err == nil && f != nil {
				e.Nontrivial = true
				e.Probe("parsed")
			}
			if o.K == "parse" {
				var t map[string][]byte
				if err == nil && f != nil {
					t = copyTables(f.Tables)
				}
				if nparse++; nparse > 1 {
					if s := sameTables(parsed, t); parseErr != text(err) || s != "" {
						e.Fail("second parse differs", "%s: parsing the same bytes again gave %q instead of %q, %s", what, text(err), parseErr, s)
						return
					}
				}
				parseErr, parsed = text(err), t
			}
			if err == nil {
				add(f)
			}
		case "freetype":
			var r1, r2 []byte
			do(func() {
				// the library may itself be unable to read the font
				defer func() {
					if r1 == nil {
						recover()
					}
				}()
				t, err := truetype.Parse(in)
				if err != nil {
					return
				}
				r1 = font.FromGoFreetype(t)
				r2 = font.FromGoFreetype(t)
				e.Probe("freetype")
			})
			if r1 != nil && !bytes.Equal(r1, r2) {
				e.Fail("second conversion differs", "%s: FromGoFreetype gave two different results for the same font", what)
				return
			}
			if r1 != nil {
				x := hand(r1, "the font from FromGoFreetype")
				do(func() {
					if f, err := font.ParseEmbeddedSFNT(x, 0); err == nil {
						add(f)
					}
				})
			}
		case "gosfnt":
			do(func() {
				defer func() { recover() }()
				t, err := imgsfnt.Parse(in)
				if err != nil {
					return
				}
				x := font.FromGoSFNT(t)
				if f, err := font.ParseSFNT(x, 0); err == nil {
					add(f)
				}
				e.Probe("gosfnt")
			})
		case "q":
			if f := pick(0); f != nil {
				do(func() { queryAll(f) })
			}
		case "sub":
			f := pick(0)
			if f == nil {
				break
			}
			n := int(f.NumGlyphs())
			var ids []uint16
			for _, x := range o.A[min(3, len(o.A)):] {
				ids = append(ids, uint16(mod(x, n)))
			}
			tables := [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}[mod(o.Arg(2), 3)]
			do(func() {
				if s, err := f.Subset(ids, font.SubsetOptions{Tables: tables}); err == nil {
					add(s)
				}
			})
		case "mrg":
			f, g := pick(0), pick(1)
			if f == nil || f == g {
				break
			}
			do(func() {
				if f.Merge(g, font.MergeOptions{RearrangeCmap: o.Arg(2) == 1}) == nil {
					e.Probe("merged")
				}
			})
		case "nam":
			f := pick(0)
			if f == nil {
				break
			}
			names := make([]string, f.NumGlyphs())
			for k := range names {
				names[k] = fmt.Sprintf("n%d", k%(1+o.Arg(1)))
			}
			do(func() { err = f.SetGlyphNames(names) })
		case "wr", "w2", "rel":
			f := pick(0)
			if f == nil {
				break
			}
			do(func() {
				var b []byte
				if o.K == "w2" {
					b, err = f.WriteWOFF2()
				} else {
					b = f.Write()
				}
				if err != nil || o.K == "wr" {
					return
				}
				x := hand(b, "a written font")
				if g, err := font.ParseSFNT(x, 0); err == nil {
					add(g)
				}
			})
		default:
			continue
		}
		e.Event("%s %v %v", what, ok, err)
		if !check(what) {
			return
		}
		if !ok && o.K != "freetype" && o.K != "gosfnt" {
			return
		}
	}
	if len(conv) > 0 && convErr == "" {
		for _, b := range stream {
			if !bytes.Equal(b, conv[0]) {
				e.Fail("stream differs", "converting the same bytes from a stream gave %d other bytes than converting them directly (%d)", len(b), len(conv[0]))
				return
			}
		}
	}
	_ = parsed
}

// ---- C10: damage to compressed fonts ----

type c10 struct{}

func (c10) ID() string { return "C10" }

func (c10) Gen(r *simrt.Rand, c *harness.Case) {
	c.Clock = harness.Clock{Start: 1700000000}
	form := genForm(r, c, 0, 1, 1, 1, 1, 1, 2, 3, 4, 5, 6)
	if r.Bool(2) {
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(2)]}
	}
	for n := 1 + r.Intn(24); n > 0; n-- {
		o := harness.Op{K: "cut", A: []int{r.Intn(1 << 20), r.Intn(3)}}
		switch {
		case form == formWOFF && r.Bool(80):
			o = harness.Op{K: "span", A: []int{r.Intn(64), []int{0, 0, 1, 2, 3, 4, 6, 9, 10, 11}[r.Intn(10)], r.Intn(1 << 20), r.Intn(1000), r.Intn(1 << 16), r.Intn(3)}}
			if r.Bool(15) {
				o.A[2] = r.Intn(8) // start of the compressed data
			} else if r.Bool(15) {
				o.A[2] = -1 - r.Intn(8) // and its checksum at the end
			}
		case (form == formWOFF || form == formWOFF2 || form == formWOFF2T) && r.Bool(25):
			o = harness.Op{K: "del", A: []int{r.Intn(1 << 20), 1 + r.Intn(200), r.Intn(3)}}
		case r.Bool(30):
			o.A[0] = -1 - r.Intn(40) // cut off only the end
		}
		c.Ops = append(c.Ops, o)
	}
}

// plainTables reads a plain font file or one of a collection, independently of the system under test.
func plainTables(b []byte, index int) (m map[string][]byte, ok bool) {
	defer func() {
		if recover() != nil {
			m, ok = nil, false
		}
	}()
	at := 0
	if string(b[:4]) == "ttcf" {
		if index < 0 || index >= int(binary.BigEndian.Uint32(b[8:])) {
			return nil, false
		}
		at = int(binary.BigEndian.Uint32(b[12+4*index:]))
	} else if index != 0 {
		return nil, false
	}
	n := int(binary.BigEndian.Uint16(b[at+4:]))
	m = map[string][]byte{}
	for i := 0; i < n; i++ {
		e := b[at+12+16*i:]
		off, l := int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))
		m[string(e[:4])] = b[off : off+l : off+l]
	}
	return m, true
}

// maskHead hides what a conversion may change: the checksum of the file and, for WOFF2, the flag that
// says that the font was converted.
func maskHead(m map[string][]byte, woff2 bool) map[string][]byte {
	res := map[string][]byte{}
	for t, b := range m {
		if t == "head" && len(b) >= 18 {
			b = append([]byte(nil), b...)
			clear(b[8:12])
			if woff2 {
				b[16] |= 0x08
			}
		}
		res[t] = b
	}
	return res
}

func (c10) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	good, spans := container(c, e, false)
	if good == nil {
		return
	}
	form := mod(c.P["form"], len(formNames))
	e.Probe("form_" + formNames[form])
	index := c.P["index"]
	woff2 := form == formWOFF2 || form == formWOFF2T
	const limit = 1 << 40
	// read converts and parses b. The tables are those of the conversion, which the parser must agree with.
	read := func(b []byte, what string) (t map[string][]byte, version string, err error, ok bool) {
		var f *font.SFNT
		var x []byte
		var perr error
		how := len(b)%3 == 0
		o := e.Do(limit, func() {
			if how {
				var r *bytes.Reader
				if r, err = font.NewSFNTReader(bytes.NewReader(b)); err == nil {
					x, _ = io.ReadAll(r)
				}
			} else {
				x, err = font.ToSFNT(b)
			}
			f, perr = font.ParseSFNT(b, index)
		})
		if !o.OK() {
			return nil, "", nil, false // a crash is the subject of C09
		}
		if err != nil {
			if perr == nil {
				e.Fail("parsed what cannot be converted", "%s: conversion failed (%v) but parsing succeeded", what, err)
			}
			return nil, "", err, true
		}
		if perr != nil {
			return nil, "", perr, true
		}
		t, ok2 := plainTables(x, index)
		if !ok2 {
			e.Fail("unreadable conversion", "%s: conversion returned %d bytes that are not a font file", what, len(x))
			return nil, "", nil, false
		}
		if s := sameTables(t, f.Tables); s != "" {
			e.Fail("conversion and parser differ", "%s: %s", what, s)
			return nil, "", nil, false
		}
		return maskHead(t, woff2), f.Version, nil, true
	}
	want, version, err, ok := read(good, "undamaged")
	if !ok {
		return
	}
	if index < 0 || index >= len(c.Fonts) {
		if err == nil {
			e.Fail("font that does not exist", "font %d of %d was returned", index, len(c.Fonts))
		}
		return
	}
	if err != nil {
		e.Fail("undamaged file refused", "the undamaged %s file was refused: %v", formNames[form], err)
		return
	}
	e.Nontrivial = true
	// what is stored is what is read
	if form != formWOFF2T {
		sfnt, _ := fontgen.Build(c.Fonts[index], harness.File)
		v, ts := fontgen.Split(sfnt)
		orig := map[string][]byte{}
		for _, t := range ts {
			orig[t.Tag] = t.Data
		}
		if woff2 {
			delete(orig, "DSIG")
		}
		if s := sameTables(maskHead(orig, woff2), want); s != "" {
			e.Fail("undamaged file differs", "the undamaged %s file does not give its font: %s", formNames[form], s)
			return
		}
		if binary.BigEndian.Uint32([]byte(version)) != v {
			e.Fail("undamaged file differs", "the undamaged %s file gives a font of version %q", formNames[form], version)
			return
		}
	}
	for i, o := range c.Ops {
		b := append([]byte(nil), good...)
		what := fmt.Sprintf("fault %d (%v)", i, o)
		must := "" // why reading must fail
		switch o.K {
		case "cut":
			at := mod(o.Arg(0), len(b))
			b = b[:at:at]
		case "del":
			at := 12 + mod(o.Arg(0), len(b)-12)
			end := min(len(b), at+1+mod(o.Arg(1), 300))
			b = append(b[:at:at], b[end:]...)
		case "span":
			if len(spans) == 0 {
				continue
			}
			s := spans[mod(o.Arg(0), len(spans))]
			if s.Len == 0 {
				continue
			}
			d := damage(b[s.Off:s.Off+s.Len], o.Arg(1), o.Arg(2), o.Arg(3), o.Arg(4))
			if len(d) != s.Len || bytes.Equal(d, good[s.Off:s.Off+s.Len]) {
				continue
			}
			copy(b[s.Off:], d)
			x, err := fontgen.UnWOFF(b, s)
			if err != nil {
				must = "its compressed data is damaged: " + err.Error()
				e.Probe("undecodable")
				break
			}
			x = append([]byte(nil), x...)
			if s.Tag == "head" && len(x) >= 12 {
				clear(x[8:12])
			}
			y, _ := fontgen.UnWOFF(good, s)
			if s.Tag == "head" && len(y) >= 12 {
				clear(y[8:12])
			}
			if !bytes.Equal(x, y) {
				if fontgen.Checksum(x) == s.Sum {
					e.Probe("collision")
					continue // no reader can tell
				}
				must = "its checksum does not match"
				e.Probe("decodable")
			}
			what += " in table " + s.Tag
		default:
			continue
		}
		if bytes.Equal(b, good) {
			continue
		}
		e.Probe("fault_" + o.K)
		got, v, err, ok := read(b, what)
		if e.Failed() {
			return
		} else if !ok {
			continue
		}
		e.Event("%s %v", what, err)
		if err != nil {
			e.Probe("refused")
			continue
		}
		if must != "" {
			e.Fail("damage not noticed", "%s: the %s file was accepted although %s", what, formNames[form], must)
			return
		}
		if s := sameTables(want, got); s != "" || v != version {
			e.Fail("damaged font passed off", "%s: the damaged %s file gave a different font: %s (version %q, was %q)", what, formNames[form], s, v, version)
			return
		}
		e.Probe("harmless")
	}
}

// ---- C11: streams ----

type c11 struct{}

func (c11) ID() string { return "C11" }

type timeoutError struct{}

func (timeoutError) Error() string   { return "simulated timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var errStream = errors.New("simulated stream failure")

var streamErrors = []error{errStream, io.ErrUnexpectedEOF, timeoutError{}, os.ErrDeadlineExceeded, io.ErrClosedPipe, fmt.Errorf("stream: %w", io.EOF), io.ErrNoProgress, font.ErrInvalidFontData, &os.PathError{Op: "read", Path: "font", Err: errStream}}

// stream delivers b as its operations say.
type stream struct {
	b       []byte
	ops     []harness.Op
	i       int
	empties int
	err     error // once it failed
	fail    error // what it fails with
	late    bool  // the end comes on its own
	retries bool  // a failure is not repeated
	e       *harness.Env
	reads   int
	after   int // reads after a failure
	failed  bool
}

func (s *stream) Read(p []byte) (int, error) {
	simrt.Y(-1)
	s.reads++
	if s.failed {
		s.after++
	}
	if s.err != nil && !(s.retries && s.after > 0) {
		return 0, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	o := harness.Op{K: "c", A: []int{len(p)}}
	if len(s.ops) > 0 {
		o = s.ops[s.i%len(s.ops)]
		s.i++
	}
	switch o.K {
	case "z":
		if s.empties < 40 {
			s.empties++
			s.e.Probe("empty_read")
			return 0, nil
		}
		n = 1
	case "c":
		n = max(1, o.Arg(0))
	case "f": // fails, with or without data
		if s.err == nil && s.fail != nil && !s.failed {
			n = min(o.Arg(0), len(p), len(s.b))
			copy(p, s.b[:n])
			s.b = s.b[n:]
			s.err = s.fail
			s.failed = true
			if n > 0 {
				s.e.Probe("error_with_data")
			}
			s.e.Probe("stream_error")
			return n, s.err
		}
		n = 1
	}
	s.empties = 0
	n = min(n, len(p), len(s.b))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if len(s.b) == 0 && (!s.late || n == 0) {
		if s.fail != nil && !s.failed { // fails in place of its end
			s.err, s.failed = s.fail, true
			s.e.Probe("error_at_end")
			return n, s.err
		}
		if n > 0 {
			s.e.Probe("eof_with_data")
		}
		return n, io.EOF
	}
	return n, nil
}

func (c11) Gen(r *simrt.Rand, c *harness.Case) {
	c.Clock = harness.Clock{Start: 1700000000}
	form := genForm(r, c, 0, 0, 1, 2, 3, 4, 5, 6)
	if r.Bool(5) {
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(2)]}
	}
	if r.Bool(15) {
		c.Ops = append(c.Ops, genDamage(r, 2))
	}
	if r.Bool(3) {
		c.Ops = append(c.Ops, harness.Op{K: "d", A: []int{2, 5, r.Intn(50), 0, 0, 0}})
	}
	_ = form
	c.P["late"] = r.Intn(2)
	if r.Bool(55) {
		c.P["err"] = 1 + r.Intn(len(streamErrors))
		c.P["retries"] = r.Intn(2)
	}
	n := 1 + r.Intn(30)
	big := []int{1, 2, 7, 100, 511, 512, 513, 1000, 4096, 5000, 40000, 1 << 20}[r.Intn(12)]
	if big == 1 {
		c.P["late"] = 1
	}
	for i := 0; i < n; i++ {
		k := harness.Op{K: "c", A: []int{1 + r.Intn(big)}}
		if r.Bool(15) {
			k = harness.Op{K: "z"}
		}
		c.Ops = append(c.Ops, k)
	}
	if c.P["err"] != 0 && r.Bool(75) {
		i := len(c.Ops) - n + r.Intn(n+1)
		f := harness.Op{K: "f", A: []int{[]int{0, 0, 1, 10, 512, 1 << 20}[r.Intn(6)]}}
		c.Ops = append(c.Ops[:i:i], append([]harness.Op{f}, c.Ops[i:]...)...)
	}
}

func (c11) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	b, _ := container(c, e, true)
	if b == nil {
		return
	}
	form := mod(c.P["form"], len(formNames))
	e.Probe("form_" + formNames[form])
	const limit = 1 << 40
	var want []byte
	var wantErr error
	if !e.Do(limit, func() { want, wantErr = font.ToSFNT(append([]byte(nil), b...)) }).OK() {
		return
	}
	s := &stream{b: b, late: c.P["late"] != 0, retries: c.P["retries"] != 0, e: e}
	for _, o := range c.Ops {
		if o.K != "d" {
			s.ops = append(s.ops, o)
		}
	}
	if k := c.P["err"]; k > 0 {
		s.fail = streamErrors[mod(k-1, len(streamErrors))]
	}
	var r *bytes.Reader
	var err error
	o := e.Do(limit, func() { r, err = font.NewSFNTReader(s) })
	if !o.OK() {
		e.Fail(o.Class(), "reading from a stream ended in %s: %s\n%s", o.Kind, o.Msg, o.Stack)
		return
	}
	e.Nontrivial = true
	e.Event("reads %d failed %v err %v", s.reads, s.failed, err)
	e.ProbeN("reads", s.reads)
	if s.failed {
		if err == nil {
			e.Fail("stream failure hidden", "the stream failed with %q after %d of %d bytes, but a font was returned", s.fail, len(b)-len(s.b), len(b))
		} else if !errors.Is(err, s.fail) {
			e.Fail("stream failure replaced", "the stream failed with %q, but the error returned is %q", s.fail, err)
		} else if r != nil && r.Size() > 0 {
			e.Fail("font with an error", "the stream failed with %q, but a font was returned along with the error", s.fail)
		}
		return
	}
	if (err != nil) != (wantErr != nil) {
		e.Fail("stream changes outcome", "reading %d bytes from a stream gave error %v, converting them directly gave error %v", len(b), err, wantErr)
		return
	}
	if err != nil {
		if err.Error() != wantErr.Error() {
			e.Fail("stream changes outcome", "reading from a stream gave error %q, converting directly gave error %q", err, wantErr)
		}
		return
	}
	if r == nil {
		e.Fail("neither font nor error", "the reader returned neither a font nor an error")
		return
	}
	got := make([]byte, r.Len())
	r.Read(got)
	if !bytes.Equal(got, want) || r.Size() != int64(len(want)) {
		e.Fail("stream changes font", "reading from a stream gave %d bytes, converting directly gave %d other bytes", len(got), len(want))
	}
}

// ---- C12: the memory limit ----

type c12 struct{}

func (c12) ID() string { return "C12" }

func init() {
	orig := font.MaxMemory
	harness.ResetHooks = append(harness.ResetHooks, func() { font.MaxMemory = orig })
}

// The modes of a run of C12.
const (
	c12Honest = iota // a correct font
	c12Bomb          // data that expands beyond what is declared
	c12Liar          // sizes that are not true
	c12Glyf          // a correct font that is larger than the sizes declared
	c12Modes
)

func (c12) Gen(r *simrt.Rand, c *harness.Case) {
	c.Clock = harness.Clock{Start: 1700000000}
	genForm(r, c, 1, 1, 2, 3)
	if r.Bool(3) {
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(2)]}
	}
	c.P["mode"] = []int{0, 0, 0, 1, 1, 2, 2, 3}[r.Intn(8)]
	c.P["delta"] = []int{0, 0, -1, 1, -4, 4, -100, 100, 1 << 20, -r.Intn(30000), r.Intn(30000)}[r.Intn(11)]
	c.P["limit"] = []int{0, 1, 100, 1000, 5000, 20000, 100_000, 300_000}[r.Intn(8)]
	c.P["which"] = r.Intn(64)
	c.P["size"] = []int{1, 1000, 1000, 100_000, 100_000, 1 << 20, 1 << 20, 1 << 20, 2 << 20, 12 << 20}[r.Intn(10)]
	c.P["lie"] = r.Intn(20)
	c.P["streams"] = r.Intn(3)
}

func (c12) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	form := mod(c.P["form"], formWOFF2T+1)
	if form == formPlain {
		return
	}
	good, spans := container(c, e, false)
	if good == nil {
		return
	}
	e.Probe("form_" + formNames[form])
	mode := mod(c.P["mode"], c12Modes)
	r := simrt.NewRand(uint64(c.P["wrap"]) + 99)
	// what the undamaged file needs
	var out []byte
	var err error
	font.MaxMemory = 1 << 30
	if o := e.Do(1<<40, func() { out, err = font.ToSFNT(good) }); !o.OK() || err != nil {
		return // the subject of C10
	}
	streamSize := 0
	var dir, data []byte
	if form == formWOFF {
		for _, s := range spans {
			streamSize += s.Orig
		}
	} else {
		dir, data, _ = fontgen.WOFF2Parts(good)
		streamSize = len(data)
	}
	declared := int(binary.BigEndian.Uint32(good[16:]))
	least := max(streamSize, len(out)) // below this limit nobody can decompress the font
	need := max(least, declared)
	b := good
	limit := least + c.P["delta"]
	refuse, accept := false, false
	switch mode {
	case c12Honest:
		accept = limit >= need
		refuse = limit < least
	case c12Bomb, c12Liar:
		limit = c.P["limit"]
		if limit == 0 || c.P["delta"] > 1000 {
			limit = need + max(0, c.P["delta"])
		}
		bomb := make([]byte, mod(c.P["size"], 25<<20))
		if c.P["lie"]%3 == 0 { // not all alike
			for i := range bomb {
				bomb[i] = byte(i / 97)
			}
		}
		if form == formWOFF {
			b = woffLiar(c, good, spans, bomb, mode, r)
		} else {
			b = woff2Liar(c, good, dir, data, bomb, mode, r)
		}
	case c12Glyf:
		// the declared size is not what the font needs
		if form == formWOFF {
			return
		}
		b = append([]byte(nil), good...)
		v := []uint32{0, 1, 12, uint32(len(out) / 2), uint32(streamSize)}[mod(c.P["lie"], 5)]
		binary.BigEndian.PutUint32(b[16:], v)
		if c.P["which"]%2 == 0 {
			// between the sizes before and after the transformation
			lo, hi := min(streamSize, len(out)), max(streamSize, len(out))
			limit = lo + mod(c.P["delta"]*7, hi-lo+1)
		}
		refuse = limit < least
	}
	if limit < 0 {
		limit = 0
	}
	font.MaxMemory = uint32(limit)
	var got []byte
	simrt.Inflated = 0
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	o := e.Do(1<<40, func() { got, err = font.ToSFNT(b) })
	runtime.ReadMemStats(&m1)
	inflated := simrt.Inflated
	if !o.OK() {
		return // the subject of C09
	}
	e.Nontrivial = true
	e.Probe([]string{"honest", "bomb", "liar", "glyf"}[mode])
	e.Event("limit %d len %d err %v inflated %d", limit, len(got), err, inflated)
	if err == nil {
		e.Probe("accepted")
	} else if errors.Is(err, font.ErrExceedsMemory) {
		e.Probe("refused_memory")
	} else {
		e.Probe("refused")
	}
	const slack = 70_000 // the buffer of one copy
	if inflated > uint64(limit)+slack {
		e.Fail("decompressed beyond the limit", "the limit is %d bytes, but %d bytes were decompressed (%s, file of %d bytes, error %v)", limit, inflated, formNames[form], len(b), err)
		return
	}
	if err == nil && len(got) > limit {
		e.Fail("font larger than the limit", "the limit is %d bytes, but a font of %d bytes was returned (%s, file of %d bytes)", limit, len(got), formNames[form], len(b))
		return
	}
	if alloc, may := m1.TotalAlloc-m0.TotalAlloc, uint64(64<<20+12*(limit+len(b))); alloc > may {
		e.Fail("allocated beyond the limit", "the limit is %d bytes, but %d bytes were allocated (%s, file of %d bytes, error %v)", limit, alloc, formNames[form], len(b), err)
		return
	}
	if accept && err != nil {
		e.Fail("font within the limit refused", "the limit is %d bytes and the font needs %d (%d compressed data, %d file, %d declared), but it was refused: %v", limit, need, streamSize, len(out), declared, err)
		return
	}
	if accept && !bytes.Equal(got, out) {
		e.Fail("font within the limit changed", "the limit is %d bytes and the font needs %d, but another font was returned", limit, need)
		return
	}
	if refuse && err == nil {
		e.Fail("font beyond the limit accepted", "the limit is %d bytes and the font needs %d, but it was accepted", limit, least)
	}
}

var lies = []uint32{0, 1, 100, 0xFFFF, 1 << 20, 30 << 20, 31 << 20, 300 << 20, 1 << 30, 0x7FFFFFFF, 0x80000000, 0xF0000000, 0xFFFFFFF0, 0xFFFFFFFC, 0xFFFFFFFF}

// woffLiar builds a WOFF file with a table that expands to something else than declared, or whose sizes
// are lies.
func woffLiar(c *harness.Case, good []byte, spans []fontgen.Span, bomb []byte, mode int, r *simrt.Rand) []byte {
	sfnt, _ := fontgen.Build(c.Fonts[0], harness.File)
	version, ts := fontgen.Split(sfnt)
	k := mod(c.P["which"], len(ts))
	raws := make([]fontgen.Raw, len(ts))
	for i, t := range ts {
		raws[i] = fontgen.RawTable(t)
		if i != k {
			continue
		}
		if mode == c12Bomb {
			raws[i].Data = fontgen.Deflate(bomb)
			if c.P["streams"] == 1 { // more data after the end of the first stream
				raws[i].Data = append(raws[i].Data, fontgen.Deflate(bomb)...)
			}
			// as large as it must be at least
			raws[i].Orig = max(uint32(len(t.Data)), uint32(len(raws[i].Data)+mod(c.P["lie"], 5)))
			if c.P["lie"]%2 == 0 {
				raws[i].Sum = fontgen.Checksum(bomb[:min(len(bomb), int(raws[i].Orig))])
			}
		} else {
			raws[i].Orig = lies[mod(c.P["lie"], len(lies))]
		}
	}
	b := fontgen.WOFFRaw(version, raws)
	if mode == c12Liar && c.P["delta"]%2 != 0 {
		binary.BigEndian.PutUint32(b[16:], lies[mod(c.P["lie"]+c.P["streams"], len(lies))])
	}
	return b
}

func woff2Liar(c *harness.Case, good, dir, data, bomb []byte, mode int, r *simrt.Rand) []byte {
	if mode == c12Bomb {
		stream := append(append([]byte(nil), data...), bomb...)
		if c.P["lie"]%2 == 0 {
			stream = bomb
		}
		return fontgen.WOFF2Rebuild(good, dir, stream, r)
	}
	// another size in the directory
	tabs := fontgen.WOFF2Dir(good)
	if len(tabs) == 0 {
		return good
	}
	t := &tabs[mod(c.P["which"], len(tabs))]
	v := lies[mod(c.P["lie"], len(lies))]
	if t.HasTrans && c.P["streams"] == 1 {
		t.Trans = v
	} else {
		t.Orig = v
	}
	if c.P["streams"] == 2 {
		data = append(append([]byte(nil), data...), bomb...)
	}
	b := fontgen.WOFF2Rebuild(good, fontgen.WOFF2DirBytes(tabs), data, r)
	if c.P["delta"]%2 != 0 {
		binary.BigEndian.PutUint32(b[16:], lies[mod(c.P["lie"]+c.P["streams"], len(lies))])
	}
	return b
}
