// Package props holds the simulated properties of the font package and their oracles.
package props

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/harness"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// Rec records a path.
type Rec struct{ b []byte }

func (p *Rec) add(c byte, vs ...float64) {
	p.b = append(p.b, c)
	for i, v := range vs {
		if i > 0 {
			p.b = append(p.b, ',')
		}
		p.b = strconv.AppendFloat(p.b, v, 'g', -1, 64)
	}
}
func (p *Rec) MoveTo(x, y float64)             { p.add('M', x, y) }
func (p *Rec) LineTo(x, y float64)             { p.add('L', x, y) }
func (p *Rec) QuadTo(a, b, x, y float64)       { p.add('Q', a, b, x, y) }
func (p *Rec) CubeTo(a, b, c, d, x, y float64) { p.add('C', a, b, c, d, x, y) }
func (p *Rec) Close()                          { p.add('z') }

// Glyph is everything a font answers about one glyph.
type Glyph struct {
	Adv, VAdv uint16
	LSB       int16
	HasLSB    bool
	Bounds    [4]int16
	Path      string
	PathErr   bool
	Name      string
	Runes     []rune
	Data      string // what Contour and Dependencies tell beyond the outline, or the Private DICT
}

// Snap is everything a font answers.
type Snap struct {
	N     int
	UPM   uint16
	VM    [3]uint16
	G     []Glyph
	Runes map[rune]uint16
	Names map[string]uint16
	Kern  map[[2]uint16]int16
	// deeper levels
	Fields map[string]string
	Bytes  uint64 // hash of the written file under a fixed clock
	Len    int
	Raw    []byte
	WOFF2  string // hash and length of the font written as WOFF2 under a fixed clock, or how that fails
}

// Levels of a snapshot.
const (
	LQuery = iota
	LFields
	LWrite
	LWOFF2
)

var fixedRunes = []rune{-1, 0, 32, 65, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF}
var fixedNames = []string{"", ".notdef", "A", "space", "zz.none", "g0001"}

// bigFont is the number of glyphs from which on snapshots only sample glyphs.
const bigFont = 700

func sampleGlyphs(n int) (ids []int) {
	if n <= bigFont {
		for i := 0; i < n; i++ {
			ids = append(ids, i)
		}
		return
	}
	for i := 0; i < 200; i++ {
		ids = append(ids, i)
	}
	for i := 200; i < n; i += 1 + n/200 {
		ids = append(ids, i)
	}
	return append(ids, n-1)
}

// Dump writes out the exported fields of a table.
func Dump(v interface{}) string {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return "none"
		}
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct {
		return fmt.Sprint(v)
	}
	var b strings.Builder
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		if !f.IsExported() || f.Name == "Modified" {
			continue
		}
		fmt.Fprintf(&b, "%s=%v;", f.Name, rv.Field(i).Interface())
	}
	return b.String()
}

// TakeGlyph asks a font everything about one glyph.
func TakeGlyph(f *font.SFNT, id uint16) (g Glyph) {
	g.Adv, g.VAdv = f.GlyphAdvance(id), f.GlyphVerticalAdvance(id)
	if f.Hmtx != nil {
		g.LSB, g.HasLSB = f.Hmtx.LeftSideBearing(id), true
	}
	g.Bounds[0], g.Bounds[1], g.Bounds[2], g.Bounds[3] = f.GlyphBounds(id)
	p := &Rec{}
	g.PathErr = f.GlyphPath(p, id, 0, 0, 0, 1.0, font.NoHinting) != nil
	if !g.PathErr {
		g.Path = string(p.b)
	}
	g.Name = f.GlyphName(id)
	g.Runes = append([]rune(nil), f.GlyphToUnicode(id)...)
	sort.Slice(g.Runes, func(i, j int) bool { return g.Runes[i] < g.Runes[j] })
	g.Data = glyphData(f, id)
	return
}

// glyphData is what the tables tell about a glyph beyond its outline.
func glyphData(f *font.SFNT, id uint16) string {
	if f.IsTrueType && f.Glyf != nil {
		s := "simple"
		if f.Glyf.IsComposite(id) {
			s = "composite"
		}
		if deps, err := f.Glyf.Dependencies(id); err == nil {
			s += fmt.Sprintf(" of %v", deps)
		}
		if c, err := f.Glyf.Contour(id); err == nil {
			s += fmt.Sprintf(" instructions %x end points %v overlap %v", c.Instructions, c.EndPoints, c.OverlapSimple)
		}
		return s
	} else if f.IsCFF && f.CFF != nil {
		if p, err := f.CFF.PrivateDICT(id); err == nil && p != nil {
			return dumpDICT(p)
		}
	}
	return ""
}

// dumpDICT writes out a DICT but for the positions of other data in the table.
func dumpDICT(v interface{}) string {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return "none"
	}
	rv = rv.Elem()
	var b strings.Builder
	for i := 0; i < rv.NumField(); i++ {
		switch n := rv.Type().Field(i).Name; n {
		case "Charset", "Encoding", "CharStrings", "PrivateOffset", "PrivateLength", "FDArray", "FDSelect", "Subrs", "Vstore":
		default:
			v := fmt.Sprint(rv.Field(i).Interface())
			switch fv := rv.Field(i).Interface().(type) {
			case float64:
				v = fmt.Sprint(fv + 0) // 0 for -0
			case []float64:
				fs := append([]float64{}, fv...) // nil and empty are the same
				for k := range fs {
					fs[k] += 0
				}
				v = fmt.Sprint(fs)
			case [6]float64:
				for k := range fv {
					fv[k] += 0
				}
				v = fmt.Sprint(fv)
			case [4]float64:
				for k := range fv {
					fv[k] += 0
				}
				v = fmt.Sprint(fv)
			}
			fmt.Fprintf(&b, "%s=%s;", n, v)
		}
	}
	return b.String()
}

func take(f *font.SFNT, level int) *Snap {
	s := &Snap{N: int(f.NumGlyphs()), UPM: f.UnitsPerEm(), Runes: map[rune]uint16{}, Names: map[string]uint16{}, Kern: map[[2]uint16]int16{}}
	a, b, c := f.VerticalMetrics()
	s.VM = [3]uint16{a, b, c}
	ids := sampleGlyphs(s.N)
	s.G = make([]Glyph, len(ids))
	for k, i := range ids {
		s.G[k] = TakeGlyph(f, uint16(i))
		g := &s.G[k]
		for _, r := range g.Runes {
			for d := rune(-1); d <= 1; d++ {
				s.Runes[r+d] = f.GlyphIndex(r + d)
			}
		}
		s.Names[g.Name] = f.FindGlyphName(g.Name)
	}
	for _, r := range fixedRunes {
		s.Runes[r] = f.GlyphIndex(r)
	}
	for _, n := range fixedNames {
		s.Names[n] = f.FindGlyphName(n)
	}
	kern := func(l, r uint16) {
		if v := f.Kerning(l, r); v != 0 {
			s.Kern[[2]uint16{l, r}] = v
		}
	}
	m := min(s.N, 40)
	for l := 0; l < m; l++ {
		for r := 0; r < m; r++ {
			kern(uint16(l), uint16(r))
		}
	}
	if s.N > m && f.Kern != nil {
		for _, sub := range f.Kern.Subtables {
			for i, p := range sub.Pairs {
				// a font may be written with its pairs spread over other subtables, so that a sample may only
				// depend on the pair; 65536 pairs is more than any generated font holds
				if i >= 65536 {
					break
				}
				kern(uint16(p.Key>>16), uint16(p.Key))
			}
		}
	}
	if level >= LFields {
		s.Fields = map[string]string{
			"version": fmt.Sprint(f.IsCFF, f.IsTrueType),
			"head":    Dump(f.Head), "hhea": Dump(f.Hhea), "OS/2": Dump(f.OS2), "post": Dump(f.Post),
			"maxp": Dump(f.Maxp), "vhea": Dump(f.Vhea), "vmtx": Dump(f.Vmtx), "name": Dump(f.Name),
			"hmtx": Dump(f.Hmtx),
		}
		if f.CFF != nil {
			s.Fields["CFF"] = dumpDICT(f.CFF.TopDICT())
		}
	}
	if level >= LWrite {
		s.Raw = fixedWrite(f)
		h := fnv.New64a()
		h.Write(s.Raw)
		s.Bytes, s.Len = h.Sum64(), len(s.Raw)
	}
	if level >= LWOFF2 {
		s.WOFF2 = fixedWOFF2(f)
	}
	return s
}

func fixedWOFF2(f *font.SFNT) (s string) {
	old := simtime.Clock
	defer func() {
		simtime.Clock = old
		if r := recover(); r != nil {
			s = "panic: " + fmt.Sprint(r) // C06's business; here it only may not change
		}
	}()
	simtime.SetClock(time.Unix(1600000000, 0).UTC(), 0, nil)
	b, err := f.WriteWOFF2()
	if err != nil {
		return "error: " + err.Error()
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes, hash %x", len(b), h.Sum64())
}

// fixedWrite writes the font under a clock of its own.
func fixedWrite(f *font.SFNT) []byte {
	old := simtime.Clock
	defer func() { simtime.Clock = old }()
	simtime.SetClock(time.Unix(1600000000, 0).UTC(), 0, nil)
	return f.Write()
}

// TakeSnap queries a font for everything. A query that fails is a violation.
func TakeSnap(e *harness.Env, f *font.SFNT, level int, what string) *Snap {
	var s *Snap
	if o := e.Quietly(func() { s = take(f, level) }); !o.OK() {
		e.Fail("query "+o.Class(), "%s: a query ended in %s: %s\n%s", what, o.Kind, o.Msg, o.Stack)
		return nil
	}
	return s
}

// What Diff looks at beyond LQuery.
type DiffOpt struct {
	Fields   bool
	SkipOS2  bool
	SkipName bool
	Bytes    bool
}

func show(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Diff names the first difference between the answers of two fonts: a class and a description.
func Diff(a, b *Snap, o DiffOpt) (string, string) {
	if a.N != b.N {
		return "glyph count", fmt.Sprintf("number of glyphs %d became %d", a.N, b.N)
	}
	if a.UPM != b.UPM {
		return "units per em", fmt.Sprintf("units per em %d became %d", a.UPM, b.UPM)
	}
	if a.VM != b.VM {
		return "vertical metrics", fmt.Sprintf("vertical metrics %v became %v", a.VM, b.VM)
	}
	for i := range a.G {
		if what, msg := DiffGlyph(&a.G[i], &b.G[i]); what != "" {
			return what, fmt.Sprintf("glyph %d of %d: %s", i, a.N, msg)
		}
		if a.G[i].Data != b.G[i].Data {
			name, x, y := diffDump(a.G[i].Data, b.G[i].Data)
			return "glyph data" + name, fmt.Sprintf("glyph %d of %d: %s became %s", i, a.N, show(x), show(y))
		}
	}
	for _, r := range runesOf(a.Runes, b.Runes) {
		x, ok1 := a.Runes[r]
		y, ok2 := b.Runes[r]
		if ok1 && ok2 && x != y {
			return "character lookup", fmt.Sprintf("character %U gave glyph %d and gives %d", r, x, y)
		}
	}
	var names []string
	for n := range a.Names {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if y, ok := b.Names[n]; ok && y != a.Names[n] {
			return "name lookup", fmt.Sprintf("name %q gave glyph %d and gives %d", n, a.Names[n], y)
		}
	}
	if !reflect.DeepEqual(a.Kern, b.Kern) {
		return "kerning", "kerning differs: " + diffKern(a.Kern, b.Kern)
	}
	if o.Fields {
		for _, k := range []string{"version", "head", "hhea", "maxp", "post", "hmtx", "vhea", "vmtx", "name", "OS/2", "CFF"} {
			if k == "OS/2" && o.SkipOS2 || k == "name" && o.SkipName {
				continue
			}
			if a.Fields[k] != b.Fields[k] {
				name, x, y := diffDump(a.Fields[k], b.Fields[k])
				return "table " + k + name, fmt.Sprintf("fields of %s differ: %s became %s", k, x, y)
			}
		}
	}
	if o.Bytes && (a.Bytes != b.Bytes || a.Len != b.Len) {
		return "written bytes", fmt.Sprintf("the written file differs (%d and %d bytes): %s", a.Len, b.Len, diffTables(a.Raw, b.Raw))
	}
	if o.Bytes && a.WOFF2 != "" && b.WOFF2 != "" && a.WOFF2 != b.WOFF2 {
		return "written WOFF2", fmt.Sprintf("written as WOFF2 it gave %s and gives %s", a.WOFF2, b.WOFF2)
	}
	return "", ""
}

// diffDump narrows two listings of fields down to the first that differs.
func diffDump(a, b string) (name, x, y string) {
	as, bs := strings.Split(a, ";"), strings.Split(b, ";")
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] != bs[i] {
			if n := strings.IndexByte(as[i], '='); n > 0 {
				name = " " + as[i][:n]
			}
			return name, as[i], bs[i]
		}
	}
	return "", a, b
}

// DiffGlyph compares the answers about one glyph.
func DiffGlyph(x, y *Glyph) (string, string) {
	switch {
	case x.Adv != y.Adv:
		return "advance", fmt.Sprintf("advance %d became %d", x.Adv, y.Adv)
	case x.VAdv != y.VAdv:
		return "vertical advance", fmt.Sprintf("vertical advance %d became %d", x.VAdv, y.VAdv)
	case x.HasLSB && y.HasLSB && x.LSB != y.LSB:
		return "left side bearing", fmt.Sprintf("left side bearing %d became %d", x.LSB, y.LSB)
	case x.Bounds != y.Bounds:
		return "bounds", fmt.Sprintf("bounds %v became %v", x.Bounds, y.Bounds)
	case x.PathErr != y.PathErr || x.Path != y.Path:
		return "outline", fmt.Sprintf("outline %s (error %v) became %s (error %v)", show(x.Path), x.PathErr, show(y.Path), y.PathErr)
	case x.Name != y.Name:
		return "glyph name", fmt.Sprintf("name %q became %q", x.Name, y.Name)
	case !eqRunes(x.Runes, y.Runes):
		return "characters", fmt.Sprintf("characters %U became %U", x.Runes, y.Runes)
	}
	return "", ""
}

func eqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runesOf(ms ...map[rune]uint16) (rs []rune) {
	seen := map[rune]bool{}
	for _, m := range ms {
		for r := range m {
			if !seen[r] {
				seen[r] = true
				rs = append(rs, r)
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return
}

func diffKern(a, b map[[2]uint16]int16) string {
	var ks [][2]uint16
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1]
	})
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("pair %v was %d and is %d", k, a[k], b[k])
		}
	}
	return ""
}

// diffTables names the tables in which two files differ.
func diffTables(a, b []byte) string {
	ta, tb := rawTables(a), rawTables(b)
	var tags []string
	for t := range ta {
		tags = append(tags, t)
	}
	for t := range tb {
		if _, ok := ta[t]; !ok {
			tags = append(tags, t)
		}
	}
	sort.Strings(tags)
	var out []string
	for _, t := range tags {
		x, y := ta[t], tb[t]
		if string(x) != string(y) {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			out = append(out, fmt.Sprintf("%s (%d/%d bytes, first at %d)", t, len(x), len(y), i))
		}
	}
	return strings.Join(out, ", ")
}

func rawTables(b []byte) map[string][]byte {
	m := map[string][]byte{}
	if len(b) < 12 {
		return m
	}
	n := int(b[4])<<8 | int(b[5])
	for i := 0; i < n && 12+16*i+16 <= len(b); i++ {
		p := 12 + 16*i
		off, l := be32(b[p+8:]), be32(b[p+12:])
		if uint64(off)+uint64(l) <= uint64(len(b)) {
			m[string(b[p:p+4])] = b[off : off+l]
		}
	}
	return m
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
func be16(b []byte) int { return int(b[0])<<8 | int(b[1]) }
