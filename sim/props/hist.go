package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// The history engine: a pool of fonts, edited by a sequence of subset, merge, rename, write, reload and
// query operations. Which invariants are checked on the way is the property's choice.

// Opts says what a property checks along a history.
type Opts struct {
	Frame     bool // subset and write leave source and arguments alone
	Indep     bool // merge leaves the other font alone, fonts stay independent
	Atomic    bool // a failing edit changes nothing
	Reload    bool // every font survives write and parse
	WOFF2     bool // every font survives WOFF2
	Structure bool // every written file is valid
	Identity  bool // glyphs keep their identity
	Names     bool // assigned names are answered
	Buffers   bool // input bytes stay as they are
}

// origin says where a glyph comes from. Root < 0: nothing is known.
type origin struct{ Root, Gid int }

// item is a font of the pool.
type item struct {
	F        *font.SFNT
	Embedded bool // only the tables a PDF needs
	Kind     string
	Ids      []origin
	Fam      []int           // kerning family of each glyph, -1 for none
	Runes    []map[rune]bool // nil entry: unknown
	Extra    []bool          // glyph was added as a dependency
	NoIds    bool
	NoCmap   bool
	NoPost   bool
	NoVert   bool     // vertical metrics got lost along with their table
	Names    []string // assigned names; "\x00" where unknown
	Named    bool
	Edited   bool     // by Subset or Merge, which write the character map anew
	Guard    *guard
	Snap     *Snap
	Made     string
	Flaws    map[string]bool // wrong with the font to begin with, goes once it is edited
}

const unknown = "\x00"

// guard watches a buffer and the memory behind it.
type guard struct {
	full []byte
	n    int
	want []byte
	what string
}

const canary = 0xA7

func newGuard(b []byte, what string) *guard {
	full := make([]byte, len(b)+64)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = canary
	}
	return &guard{full, len(b), append([]byte(nil), full...), what}
}

func (g *guard) Bytes() []byte { return g.full[:g.n] }

func (g *guard) check() string {
	if bytes.Equal(g.full, g.want) {
		return ""
	}
	for i := range g.full {
		if g.full[i] != g.want[i] {
			where := "byte"
			if i >= g.n {
				where = "byte beyond the length"
			}
			return fmt.Sprintf("%s: %s %d of %d was %02X and is %02X", g.what, where, i, g.n, g.want[i], g.full[i])
		}
	}
	return ""
}

type hist struct {
	e      *harness.Env
	o      Opts
	pool   []*item
	roots  []*item // private copies for reference
	cache  map[origin]Glyph
	fams   int
	failed []int    // operations that returned an error
	outs   [][]byte // what was written
	skip   map[int]bool
	silent bool // do not check, only execute
	oi     int
	clocks [][]time.Time
	limit  uint64
}

const opLimit = 60_000_000

func newHist(e *harness.Env, o Opts) *hist {
	return &hist{e: e, o: o, cache: map[origin]Glyph{}, limit: opLimit}
}

func (h *hist) fail(class, f string, a ...interface{}) {
	h.e.Fail(class, "operation %d (%s): %s", h.oi, h.opName(), fmt.Sprintf(f, a...))
}

func (h *hist) opName() string {
	if h.oi < len(h.e.Case.Ops) {
		return h.e.Case.Ops[h.oi].String()
	}
	return "end"
}

// start parses the fonts of the case.
func (h *hist) start() bool {
	for i, spec := range h.e.Case.Fonts {
		b, _ := fontgen.Build(spec, harness.File)
		g := newGuard(b, fmt.Sprintf("input of font %d", i))
		var f, ref *font.SFNT
		var err, err2 error
		o := h.e.Quietly(func() {
			f, err = font.ParseSFNT(g.Bytes(), 0)
			ref, err2 = font.ParseSFNT(append([]byte(nil), b...), 0)
		})
		if !o.OK() || err != nil || err2 != nil {
			h.e.Fail("parse", "font %d %+v does not parse: %v %s %s", i, spec, err, o.Msg, o.Stack)
			return false
		}
		it := &item{F: f, Kind: spec.Kind, Guard: g, Made: fmt.Sprintf("font %d", i), Flaws: Flaws(b)}
		root := &item{F: ref, Kind: spec.Kind}
		if it.Kind == "file" {
			it.Kind = "ttf"
			if f.IsCFF {
				it.Kind = "cff"
			}
		}
		h.roots = append(h.roots, root)
		n := int(f.NumGlyphs())
		it.Extra = make([]bool, n)
		h.e.Quietly(func() {
			for k := 0; k < n; k++ {
				it.Ids = append(it.Ids, origin{i, k})
				it.Fam = append(it.Fam, h.fams)
				m := map[rune]bool{}
				if h.o.Identity {
					for _, r := range ref.GlyphToUnicode(uint16(k)) {
						if int(ref.GlyphIndex(r)) == k { // no other subtable says otherwise
							m[r] = true
						}
					}
				}
				it.Runes = append(it.Runes, m)
				if h.o.Names {
					it.Names = append(it.Names, ref.GlyphName(uint16(k)))
				}
			}
			it.NoPost = ref.IsTrueType && ref.Post != nil && ref.Post.NumGlyphs == 0
		})
		h.fams++
		h.pool = append(h.pool, it)
		if h.o.Frame || h.o.Indep {
			// expected answers from the reference copy, so that the font in the pool is still cold
			it.Snap = TakeSnap(h.e, ref, h.level(), "reference of "+it.Made)
			// a fresh copy as reference for later
			h.e.Quietly(func() { root.F, _ = font.ParseSFNT(append([]byte(nil), b...), 0) })
		}
	}
	return !h.e.Failed()
}

func (h *hist) pick(i int) *item { return h.pool[mod(i, len(h.pool))] }

func mod(a, n int) int {
	if n <= 0 {
		return 0
	}
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

const maxPool = 10

// run executes the history.
func (h *hist) run() {
	for i, op := range h.e.Case.Ops {
		h.oi = i
		if h.skip[i] {
			continue
		}
		h.step(op)
		if h.e.Failed() {
			return
		}
	}
	h.oi = len(h.e.Case.Ops)
}

func (h *hist) do(what string, fn func()) bool {
	limit := h.limit
	for _, it := range h.pool {
		if it.F.IsCFF {
			limit += 200_000 * uint64(it.F.NumGlyphs()) // subsetting and merging walk all charstrings
		}
	}
	out := h.e.Do(limit, fn)
	if !out.OK() {
		h.fail(what+" "+out.Class(), "%s ended in %s: %s\n%s", what, out.Kind, out.Msg, out.Stack)
		return false
	}
	return true
}

var requiredTTF = []string{"glyf", "head", "hhea", "hmtx", "loca", "maxp"}
var requiredCFF = []string{"CFF ", "cmap", "head", "hhea", "hmtx", "maxp"}

// tables resolves a table selection: 0 all, 1 min, 2 pdf, 3 required and some more, 4 some more and
// tables that do not exist.
func tables(it *item, sel int, seed uint64) []string {
	switch sel {
	case 0:
		return font.KeepAllTables
	case 1:
		return font.KeepMinTables
	case 2:
		return font.KeepPDFTables
	}
	r := simrt.NewRand(seed)
	req := requiredTTF
	if it.F.IsCFF {
		req = requiredCFF
	}
	list := append([]string(nil), req...)
	has := map[string]bool{}
	for _, t := range list {
		has[t] = true
	}
	var others []string
	for t := range it.F.Tables {
		if !has[t] {
			others = append(others, t)
		}
	}
	sort.Strings(others)
	for _, t := range others {
		if r.Bool(60) {
			list, has[t] = append(list, t), true
		}
	}
	if has["vmtx"] && !has["vhea"] { // vmtx is meaningless without
		list = append(list, "vhea")
	}
	if sel == 4 {
		list = append(list, "ZZZZ")
	}
	p := r.Perm(len(list))
	out := make([]string, len(list))
	for i, k := range p {
		out[i] = list[k]
	}
	return out
}

// usable tells whether a font can be parsed again by ParseSFNT.
func (it *item) usable() bool {
	req := []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"}
	if it.F.IsCFF {
		req = append(req, "CFF ")
	} else {
		req = append(req, "glyf", "loca")
	}
	for _, t := range req {
		if _, ok := it.F.Tables[t]; !ok {
			return false
		}
	}
	return true
}

func (h *hist) add(it *item) {
	if len(h.pool) < maxPool {
		h.pool = append(h.pool, it)
	} else {
		h.pool[len(h.roots)+(h.oi%(maxPool-len(h.roots)))] = it
	}
}

// level is how deep snapshots go: a part of the histories also looks at the WOFF2 form.
func (h *hist) level() int {
	if h.e.Case.Seed%3 == 0 {
		return LWOFF2
	}
	return LWrite
}

func (h *hist) snap(it *item, what string) *Snap {
	return TakeSnap(h.e, it.F, h.level(), what)
}

// same compares an item with its last snapshot.
func (h *hist) same(it *item, class, what string) {
	if it.Snap == nil || h.e.Failed() {
		return
	}
	now := h.snap(it, what)
	if now == nil {
		return
	}
	if c, msg := Diff(it.Snap, now, DiffOpt{Fields: true, Bytes: true}); c != "" {
		h.fail(class+": "+c, "%s changed: %s", what, msg)
	}
	h.guards()
}

func (h *hist) guards() {
	if !h.o.Buffers && !h.o.Frame && !h.o.Indep {
		return
	}
	for _, it := range h.pool {
		if it.Guard != nil {
			if s := it.Guard.check(); s != "" {
				h.fail("input bytes changed", "%s", s)
			}
		}
	}
}

func (h *hist) step(op harness.Op) {
	switch op.K {
	case "sub":
		h.subset(op)
	case "mrg":
		h.merge(op)
	case "nam":
		h.names(op)
	case "wr", "w2":
		h.write(op)
	case "rel":
		h.reload(op, false)
	case "relw2":
		h.reload(op, true)
	case "q":
		it := h.pick(op.Arg(0))
		TakeSnap(h.e, it.F, LQuery, it.Made)
	}
}

func (h *hist) subset(op harness.Op) {
	src := h.pick(op.Arg(0))
	n := int(src.F.NumGlyphs())
	if n == 0 {
		return
	}
	sel := mod(op.Arg(1), 5)
	var ids []uint16
	for k := 2; k < len(op.A); k++ {
		ids = append(ids, uint16(mod(op.A[k], n)))
	}
	if len(ids) == 0 {
		ids = append(ids, 0)
	}
	want := append([]uint16(nil), ids...)
	// the caller's lists have memory behind them
	arg := make([]uint16, len(ids)+16)
	copy(arg, ids)
	for i := len(ids); i < len(arg); i++ {
		arg[i] = 0xA700 + uint16(i)
	}
	argWant := append([]uint16(nil), arg...)
	tabs := tables(src, sel, uint64(op.Arg(1))*77+uint64(n))
	targ := append(append(make([]string, 0, len(tabs)+4), tabs...), "x1", "x2")[:len(tabs)]
	tabsWant := append([]string(nil), targ[:len(tabs)+2]...)
	if sel < 3 {
		targ = tabs // the package's own lists
		tabsWant = append([]string(nil), tabs...)
	}
	if (h.o.Frame || h.o.Atomic) && src.Snap == nil && !h.silent {
		src.Snap = h.snap(src, src.Made)
	}
	var res *font.SFNT
	var err error
	if !h.do("Subset", func() {
		res, err = src.F.Subset(arg[:len(ids)], font.SubsetOptions{Tables: targ})
	}) {
		return
	}
	h.e.Event("sub %v %v", len(ids), err)
	if !h.silent {
		for i := range arg {
			if arg[i] != argWant[i] && h.o.Frame {
				where := "within"
				if i >= len(ids) {
					where = "beyond"
				}
				h.fail("glyph list changed "+where+" its length", "the caller's glyph list changed at %d (length %d): %d became %d", i, len(ids), argWant[i], arg[i])
			}
		}
		if h.o.Frame {
			now := targ[:len(tabsWant)]
			for i := range now {
				if now[i] != tabsWant[i] {
					h.fail("table list changed", "the caller's table list %q became %q", tabsWant, now)
					break
				}
			}
			h.same(src, "source changed by Subset", "the source of the subset")
		}
	}
	if err != nil {
		h.failed = append(h.failed, h.oi)
		h.e.Probe("subset_error")
		if h.o.Atomic && !h.silent {
			h.same(src, "changed by failing Subset", "the font")
		}
		if h.o.Identity && src.Kind != "cid" {
			h.fail("Subset fails", "subset of %s with valid glyphs failed: %v", src.Made, err)
		}
		return
	}
	h.e.Probe("subset")
	it := &item{F: res, Kind: src.Kind, Edited: true, Made: fmt.Sprintf("subset made by operation %d", h.oi)}
	it.Embedded = src.Embedded || !hasAll(res, "cmap", "name", "post")
	asked := map[string]bool{}
	switch sel {
	case 0:
		for t := range src.F.Tables {
			asked[t] = true
		}
	case 1, 2:
		// what is in these is the package's choice
		for t := range res.Tables {
			asked[t] = true
		}
	default:
		for _, t := range tabs {
			asked[t] = true
		}
	}
	if h.o.Identity {
		for t := range src.F.Tables {
			// kerning goes when no pair of the subset has any
			if _, ok := res.Tables[t]; asked[t] && !ok && t != "kern" {
				h.fail("requested table lost", "table %q was requested for the subset and is in its source, but not in the subset", t)
			}
		}
	}
	h.track(src, it, want, asked)
	h.add(it)
}

func hasAll(f *font.SFNT, tags ...string) bool {
	for _, t := range tags {
		if _, ok := f.Tables[t]; !ok {
			return false
		}
	}
	return true
}

// track follows the glyphs of a subset.
func (h *hist) track(src, it *item, ids []uint16, asked map[string]bool) {
	n := int(it.F.NumGlyphs())
	_, cmap := it.F.Tables["cmap"]
	kern := asked["kern"]
	it.NoCmap = !cmap
	it.NoPost = true
	it.NoIds = src.NoIds
	if !h.o.Identity || it.NoIds {
		it.NoIds = true
		return
	}
	if n < len(ids) {
		h.fail("subset too short", "the subset of %d glyphs has %d", len(ids), n)
		return
	}
	if src.F.IsCFF && n != len(ids) {
		h.fail("subset has unrequested glyphs", "the subset of %d glyphs has %d", len(ids), n)
		return
	}
	src0 := make([]int, n) // position in the source of each glyph, -1 when not known
	for i := range src0 {
		src0[i] = -1
		if i < len(ids) {
			src0[i] = int(ids[i])
		}
	}
	if src.F.IsTrueType {
		// the glyphs after the requested ones must be dependencies: resolve them through the source's
		// composite glyphs as the file formats define them
		from, to := glyphComps(h.e, src.F), glyphComps(h.e, it.F)
		if from == nil || to == nil {
			return
		}
		for changed := true; changed; {
			changed = false
			for i := 0; i < n; i++ {
				if src0[i] <= 0 {
					continue
				}
				a, b := from[src0[i]], to[i]
				if len(a) != len(b) {
					h.fail("composite changed", "glyph %d of the subset, %d of the source, has components %v instead of %v", i, src0[i], b, a)
					return
				}
				for k := range a {
					if b[k] >= n {
						h.fail("composite out of range", "glyph %d refers to glyph %d of %d", i, b[k], n)
						return
					}
					if src0[b[k]] < 0 {
						src0[b[k]] = a[k]
						changed = true
					} else if src0[b[k]] != a[k] {
						h.fail("composite changed", "component %d of glyph %d of the subset is glyph %d of the source instead of %d", k, i, src0[b[k]], a[k])
						return
					}
				}
			}
		}
		// every extra glyph must be needed and not be among the others already
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			if i >= len(ids) {
				if src0[i] < 0 {
					h.fail("subset has unneeded glyphs", "glyph %d of the subset was neither requested nor is it needed", i)
					return
				}
				if seen[src0[i]] {
					h.fail("subset has repeated glyphs", "glyph %d of the subset repeats glyph %d of the source", i, src0[i])
					return
				}
			}
			seen[src0[i]] = true
		}
	}
	loose := len(ids) > 0 && ids[0] != 0
	count := map[int]int{}
	for _, g := range src0 {
		count[g]++
	}
	for i, g := range src0 {
		id := src.Ids[g]
		fam := src.Fam[g]
		if !kern {
			fam = -1
		}
		runes := src.Runes[g]
		if count[g] > 1 || g == 0 || i == 0 || !cmap {
			runes = nil
		}
		if g == 0 {
			id = origin{-1, 0}
		}
		it.Ids = append(it.Ids, id)
		it.Fam = append(it.Fam, fam)
		it.Runes = append(it.Runes, runes)
		it.Extra = append(it.Extra, i >= len(ids))
	}
	it.NoVert = src.NoVert || src.F.Vmtx == nil || !asked["vmtx"]
	h.verify(it, src, src0, count)
	if loose {
		// a glyph in the place of .notdef loses its outline in the next subset
		it.NoIds = true
		it.Ids, it.Fam, it.Runes = nil, nil, nil
	}
}

// glyphComps reads the components of all glyphs from the written tables.
func glyphComps(e *harness.Env, f *font.SFNT) [][]int {
	b := fixedWrite(f)
	c := fileComponents(b)
	if c == nil {
		e.Fail("glyph table unreadable", "the glyph or location table of a written font is malformed")
	}
	return c
}

func (h *hist) rootGlyph(o origin) Glyph {
	if g, ok := h.cache[o]; ok {
		return g
	}
	g := TakeGlyph(h.roots[o.Root].F, uint16(o.Gid))
	h.cache[o] = g
	return g
}

// verify checks that every glyph of an item still is what it was in the font it came from.
func (h *hist) verify(it, src *item, src0 []int, count map[int]int) {
	if it.NoIds || h.silent || h.e.Failed() || !h.o.Identity {
		return
	}
	h.e.Nontrivial = true
	out := h.e.Quietly(func() {
		f := it.F
		if int(f.NumGlyphs()) != len(it.Ids) {
			h.fail("glyph count", "%s has %d glyphs instead of %d", it.Made, f.NumGlyphs(), len(it.Ids))
			return
		}
		seen := map[rune]int{}
		for i, id := range it.Ids {
			got := TakeGlyph(f, uint16(i))
			all := got.Runes
			got.Runes = nil
			for _, r := range all {
				g := f.GlyphIndex(r)
				if int(g) == i {
					seen[r]++
					got.Runes = append(got.Runes, r)
				} else if len(f.Cmap.Subtables) == 1 { // otherwise another subtable may say so
					h.fail("character lookup", "%s: glyph %d has character %U but that character gives glyph %d", it.Made, i, r, g)
					return
				}
			}
			if id.Root < 0 {
				continue
			}
			want := h.rootGlyph(id)
			if !f.IsCFF || i == 0 {
				want.Name, got.Name = "", ""
			}
			if it.NoVert || h.roots[id.Root].F.Vmtx == nil {
				want.VAdv, got.VAdv = 0, 0
			}
			runes := got.Runes
			want.Runes, got.Runes = nil, nil
			if c, msg := DiffGlyph(&want, &got); c != "" {
				h.fail("glyph lost its "+c, "%s: glyph %d, which is glyph %d of font %d: %s", it.Made, i, id.Gid, id.Root, msg)
				return
			}
			if i != 0 && it.Runes[i] != nil {
				var exp []rune
				for r := range it.Runes[i] {
					exp = append(exp, r)
				}
				sort.Slice(exp, func(a, b int) bool { return exp[a] < exp[b] })
				if !eqRunes(exp, runes) {
					h.fail("glyph lost its characters", "%s: glyph %d, which is glyph %d of font %d, should have characters %U and has %U", it.Made, i, id.Gid, id.Root, exp, runes)
					return
				}
			}
		}
		if src != nil && !it.NoCmap {
			// of a glyph that was repeated exactly one copy has each of its characters
			for g, c := range count {
				if c > 1 && g > 0 && src.Runes[g] != nil {
					for r := range src.Runes[g] {
						i := int(f.GlyphIndex(r))
						if i >= len(src0) || src0[i] != g || seen[r] != 1 && i != 0 {
							h.fail("glyph lost its characters", "%s: character %U of repeated glyph %d gives glyph %d", it.Made, r, g, i)
							return
						}
					}
				}
			}
		}
		// kerning between all pairs
		m := min(len(it.Ids), 60)
		for a := 1; a < m; a++ {
			for b := 1; b < m; b++ {
				x, y := it.Ids[a], it.Ids[b]
				if x.Root < 0 || y.Root < 0 {
					continue
				}
				var want int16
				if it.Fam[a] >= 0 && it.Fam[a] == it.Fam[b] && x.Root == y.Root {
					want = h.roots[x.Root].F.Kerning(uint16(x.Gid), uint16(y.Gid))
					if want != 0 {
						h.e.Probe("kerning_pairs_followed")
					}
				}
				if got := f.Kerning(uint16(a), uint16(b)); got != want {
					h.fail("glyph lost its kerning", "%s: kerning of glyphs %d and %d (glyphs %d and %d of font %d) should be %d and is %d", it.Made, a, b, x.Gid, y.Gid, x.Root, want, got)
					return
				}
			}
		}
	})
	if !out.OK() && !h.e.Failed() {
		h.fail("query "+out.Class(), "querying %s ended in %s: %s\n%s", it.Made, out.Kind, out.Msg, out.Stack)
	}
}

func (h *hist) merge(op harness.Op) {
	i, j := mod(op.Arg(0), len(h.pool)), mod(op.Arg(1), len(h.pool))
	if i == j {
		j = (j + 1) % len(h.pool)
		if i == j {
			return
		}
	}
	a, b := h.pool[i], h.pool[j]
	rearr := op.Arg(2)%2 == 1
	if !h.silent {
		if h.o.Indep || h.o.Atomic {
			if b.Snap == nil {
				b.Snap = h.snap(b, b.Made)
			}
		}
		if h.o.Atomic && a.Snap == nil {
			a.Snap = h.snap(a, a.Made)
		}
		if h.o.Indep {
			for _, it := range h.pool {
				if it.Snap == nil {
					it.Snap = h.snap(it, it.Made)
				}
			}
		}
	}
	if h.e.Failed() {
		return
	}
	n1, n2 := int(a.F.NumGlyphs()), int(b.F.NumGlyphs())
	if n1+n2 > 3000 && h.roots != nil && n1+n2 <= 60000 {
		return // too slow to follow
	}
	conflict, known := h.conflict(a, b)
	vert := a.F.Vmtx != nil && b.F.Vmtx != nil
	var err error
	if !h.do("Merge", func() { err = a.F.Merge(b.F, font.MergeOptions{RearrangeCmap: rearr}) }) {
		return
	}
	h.e.Event("mrg %d %d %v", n1, n2, err)
	if h.o.Indep && !h.silent {
		for _, it := range h.pool {
			if it == a {
				continue
			}
			what := "another font"
			if it == b {
				what = "the merged-in font"
			}
			h.same(it, what+" changed by Merge", what)
			if h.e.Failed() {
				return
			}
		}
	}
	if err != nil {
		h.failed = append(h.failed, h.oi)
		h.e.Probe("merge_error")
		if h.o.Atomic && !h.silent {
			h.same(a, "changed by failing Merge", "the first font")
			h.same(b, "changed by failing Merge", "the second font")
		}
		if h.o.Identity && !h.silent && a.F.IsCFF == b.F.IsCFF && a.Kind != "cid" && b.Kind != "cid" && n1+n2 < 65000 {
			if rearr || known && !conflict {
				h.fail("Merge fails", "merging %s (%d glyphs) with %s (%d glyphs) failed: %v", a.Made, n1, b.Made, n2, err)
			}
		}
		return
	}
	h.e.Probe("merge")
	a.Edited = a.Edited || 1 < n2
	a.Snap = nil
	if a.F.IsCFF != b.F.IsCFF {
		h.fail("merged TrueType and CFF", "merging %s with %s succeeded", a.Made, b.Made)
		return
	}
	if h.o.Identity {
		if known && conflict && !rearr && n2 > 1 {
			h.fail("conflicting characters merged", "the fonts share a character, yet merging succeeded")
			return
		}
		a.NoVert = a.NoVert || n2 > 1 && (b.NoVert || !vert)
		h.trackMerge(a, b, n1, n2, rearr)
	}
	if h.o.Names {
		for k := 1; k < n2; k++ {
			nm := unknown
			if k < len(b.Names) && b.Names[k] != "" && !(b.F.IsTrueType && b.F.Post == nil) && !(a.F.IsTrueType && a.F.Post == nil) {
				nm = b.Names[k] // there is a table to take it from and one to put it in
			}
			for len(a.Names) < n1+k-1 {
				a.Names = append(a.Names, unknown)
			}
			a.Names = append(a.Names, nm)
		}
	}
	a.Made += fmt.Sprintf("+merge by operation %d", h.oi)
	if b.Embedded || a.Embedded {
		a.Embedded = a.Embedded || !hasAll(a.F, "cmap", "name", "post")
	}
}

// conflict tells whether two fonts share a character.
func (h *hist) conflict(a, b *item) (conflict, known bool) {
	if a.NoCmap || b.NoCmap || !h.o.Identity {
		return false, false
	}
	known = true
	h.e.Quietly(func() {
		seen, all := map[rune]bool{}, map[rune]bool{}
		for i := 0; i < int(a.F.NumGlyphs()); i++ {
			for _, r := range a.F.GlyphToUnicode(uint16(i)) {
				if all[r] {
					known = false
				}
				all[r] = true
				if i > 0 { // a character without a glyph is free to be given one
					seen[r] = true
				}
			}
		}
		for i := 1; i < int(b.F.NumGlyphs()); i++ {
			for _, r := range b.F.GlyphToUnicode(uint16(i)) {
				if seen[r] {
					conflict = true
				}
			}
		}
	})
	return
}

func (h *hist) trackMerge(a, b *item, n1, n2 int, rearr bool) {
	if n2 < 2 {
		return
	}
	if a.NoIds || b.NoIds {
		a.NoIds = true
		a.Ids, a.Fam, a.Runes = nil, nil, nil
		return
	}
	a.Flaws = nil
	fams := map[int]int{}
	for k := 1; k < n2; k++ {
		f := b.Fam[k]
		if f >= 0 {
			if _, ok := fams[f]; !ok {
				fams[f] = h.fams
				h.fams++
			}
			f = fams[f]
		}
		a.Ids = append(a.Ids, b.Ids[k])
		a.Fam = append(a.Fam, f)
		a.Runes = append(a.Runes, b.Runes[k])
		a.Extra = append(a.Extra, b.Extra[k])
	}
	if b.NoCmap && !a.NoCmap {
		for k := n1; k < len(a.Runes); k++ {
			a.Runes[k] = map[rune]bool{}
		}
	}
	if a.NoCmap {
		for k := range a.Runes {
			a.Runes[k] = nil
		}
	} else if rearr {
		for k := 1; k < len(a.Runes); k++ {
			a.Runes[k] = map[rune]bool{rune(k + 32): true}
		}
	}
	h.verify(a, nil, nil, nil)
}

// nameList makes the list of names an operation assigns.
func nameList(it *item, n, mode int, seed uint64) []string {
	r := simrt.NewRand(seed)
	std := []string{"A", "B", "space", "exclam", "Zcaron", "dcroat", "a", "nonmarkingreturn", "one", ".null"}
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("n%d.%d", seed%97, i)
		switch mode {
		case 1: // some repeated
			if i > 1 && r.Bool(30) {
				names[i] = names[1+r.Intn(i-1)]
			}
		case 2: // standard names mixed in
			if r.Bool(50) {
				names[i] = std[r.Intn(len(std))]
			}
		case 3: // as long as they may be
			if r.Bool(30) {
				names[i] = (names[i] + strings.Repeat("x", 63))[:63]
			}
		case 4: // one too long
			if i == n-1 {
				names[i] = strings.Repeat("y", 64+r.Intn(250))
			}
		case 5: // a permutation of few names
			names[i] = fmt.Sprintf("n%d.%d", seed%3, (i*7)%(n+1))
		}
	}
	if n > 0 {
		names[0] = ".notdef"
	}
	switch mode {
	case 6: // names it has
		for i := range names {
			names[i] = it.F.GlyphName(uint16(i))
		}
	case 7: // too few
		names = names[:n/2]
	case 8: // too many
		names = append(names, "extra1", "extra2")
	case 9: // none at all
		names = nil
	}
	return names
}

func (h *hist) names(op harness.Op) {
	it := h.pick(op.Arg(0))
	n := int(it.F.NumGlyphs())
	mode := mod(op.Arg(1), 10)
	var list []string
	if o := h.e.Quietly(func() { list = nameList(it, n, mode, uint64(op.Arg(2))) }); !o.OK() {
		h.fail("query "+o.Class(), "GlyphName ended in %s: %s\n%s", o.Kind, o.Msg, o.Stack)
		return
	}
	if h.o.Atomic && it.Snap == nil && !h.silent {
		it.Snap = h.snap(it, it.Made)
	}
	if h.o.Indep && !h.silent {
		for _, x := range h.pool {
			if x.Snap == nil {
				x.Snap = h.snap(x, x.Made)
			}
		}
	}
	arg := append(make([]string, 0, len(list)+2), list...)
	arg = append(arg, "spare")[:len(list)]
	var err error
	if !h.do("SetGlyphNames", func() { err = it.F.SetGlyphNames(arg) }) {
		return
	}
	h.e.Event("nam %d %v", len(list), err)
	for i := range arg {
		if h.o.Names && arg[i] != list[i] {
			h.fail("names list changed", "the caller's list of names changed at %d", i)
			return
		}
		arg[i] = "overwritten"
	}
	if h.o.Indep && !h.silent {
		for _, x := range h.pool {
			if x != it {
				h.same(x, "another font changed by SetGlyphNames", x.Made)
			}
		}
	}
	if err != nil {
		h.failed = append(h.failed, h.oi)
		h.e.Probe("names_error")
		if h.o.Atomic && !h.silent {
			h.same(it, "changed by failing SetGlyphNames", "the font")
		}
		if h.o.Names && (mode < 4 || mode == 5) && it.Kind != "cid" && hasPost(it) {
			h.fail("SetGlyphNames fails", "assigning %d names to %d glyphs failed: %v", len(list), n, err)
		}
		return
	}
	h.e.Probe("names")
	it.Snap = nil
	if h.o.Names {
		it.Named = true
		it.NoPost = false
		if it.F.IsCFF && len(list) != n {
			h.fail("wrong number of names accepted", "%d names for %d glyphs were accepted", len(list), n)
			return
		}
		for i := range list {
			if i < len(it.Names) {
				it.Names[i] = list[i]
			} else if i < n {
				it.Names = append(it.Names, list[i])
			}
		}
		for i := len(list); i < len(it.Names); i++ {
			it.Names[i] = unknown
		}
		h.checkNames(it, it.F, "after SetGlyphNames")
	}
}

func hasPost(it *item) bool {
	_, ok := it.F.Tables["post"]
	return ok || it.F.IsCFF
}

// checkNames compares a font's answers about names with what was assigned.
func (h *hist) checkNames(it *item, f *font.SFNT, when string) {
	if h.silent || !it.Named || h.e.Failed() {
		return
	}
	h.e.Nontrivial = true
	out := h.e.Quietly(func() {
		n := int(f.NumGlyphs())
		count := map[string]int{}
		some := false
		for i := 0; i < n; i++ {
			if i >= len(it.Names) || it.Names[i] == unknown {
				some = true
				continue
			}
			count[it.Names[i]]++
		}
		for i := 0; i < n && i < len(it.Names); i++ {
			w := it.Names[i]
			if w == unknown {
				continue
			}
			if got := f.GlyphName(uint16(i)); got != w {
				h.fail("glyph name", "%s: glyph %d was named %q and answers %q", when, i, w, got)
				return
			}
			if w == "" || some && count[w] == 1 {
				continue
			}
			g := f.FindGlyphName(w)
			if count[w] == 1 && int(g) != i {
				h.fail("name lookup", "%s: name %q of glyph %d finds glyph %d", when, w, i, g)
				return
			} else if int(g) >= n || count[w] > 1 && !some && it.Names[g] != w {
				h.fail("name lookup", "%s: name %q finds glyph %d, which is named otherwise", when, w, g)
				return
			}
		}
		for _, w := range []string{"zz.none", "n1.1", "n2.2", "overwritten", "spare", "g0001", "A", "B"} {
			if !some && count[w] == 0 {
				if g := f.FindGlyphName(w); g != 0 {
					h.fail("name lookup", "%s: name %q was assigned to no glyph and finds glyph %d", when, w, g)
					return
				}
			}
		}
	})
	if !out.OK() && !h.e.Failed() {
		h.fail("query "+out.Class(), "%s: a name lookup ended in %s: %s\n%s", when, out.Kind, out.Msg, out.Stack)
	}
}

// output writes a font in one of the formats; ok is false when that failed.
func (h *hist) output(it *item, woff2 bool) (b []byte, ok bool) {
	if (h.o.Frame || h.o.Atomic) && it.Snap == nil && !h.silent {
		it.Snap = h.snap(it, it.Made)
	}
	var err error
	simtime.Clock.Log = nil
	if woff2 {
		if !h.do("WriteWOFF2", func() { b, err = it.F.WriteWOFF2() }) {
			return nil, false
		}
	} else if !h.do("Write", func() { b = it.F.Write() }) {
		return nil, false
	}
	h.clocks = append(h.clocks, append([]time.Time(nil), simtime.Clock.Log...))
	h.e.Event("out %v %d %x %v", woff2, len(b), fontgen.Checksum(b), err)
	if err != nil {
		h.failed = append(h.failed, h.oi)
		h.e.Probe("woff2_error")
		if h.o.WOFF2 && !h.silent {
			h.fail("WriteWOFF2 fails", "writing %s as WOFF2 failed: %v", it.Made, err)
		}
		if h.o.Atomic && !h.silent {
			h.same(it, "changed by failing WriteWOFF2", "the font")
		}
		return nil, false
	}
	if h.o.Frame && !h.silent {
		h.same(it, "source changed by writing", "the written font")
	}
	return b, true
}

func (h *hist) write(op harness.Op) {
	it := h.pick(op.Arg(0))
	b, ok := h.output(it, op.K == "w2")
	if !ok {
		return
	}
	h.outs = append(h.outs, b)
	h.e.Probe(op.K)
	h.judge(it, b, op.K == "w2")
}

// judge checks a written file.
func (h *hist) judge(it *item, b []byte, woff2 bool) {
	if h.silent || h.e.Failed() {
		return
	}
	if h.o.Structure {
		h.e.Nontrivial = true
		file := b
		if woff2 {
			if c, msg := CheckWOFF2(b); c != "" {
				h.fail("invalid file: "+c, "%s: %s", it.Made, msg)
				return
			}
			var err error
			if !h.do("ParseWOFF2", func() { file, err = font.ToSFNT(append([]byte(nil), b...)) }) {
				return
			}
			if err != nil {
				h.fail("written WOFF2 unreadable", "%v", err)
				return
			}
		}
		if c, msg := CheckSFNT(file, it.Flaws); c != "" {
			h.fail("invalid file: "+c, "%s: %s", it.Made, msg)
			return
		}
		if it.Edited && !h.e.Failed() {
			var msg string
			if h.do("look at characters", func() { msg = checkUnicode(it.F, file) }) && msg != "" {
				h.fail("invalid file: cmap", "%s: %s", it.Made, msg)
			}
		}
	}
}

// parseBack parses a written font again.
func (h *hist) parseBack(it *item, b []byte, woff2 bool) (f *font.SFNT, err error, ok bool) {
	ok = h.do("parse", func() {
		if woff2 {
			b, err = font.ToSFNT(b)
			if err != nil {
				return
			}
		}
		if it.usable() {
			f, err = font.ParseSFNT(b, 0)
		} else {
			f, err = font.ParseEmbeddedSFNT(b, 0)
		}
	})
	return
}

func (h *hist) reload(op harness.Op, woff2 bool) {
	it := h.pick(op.Arg(0))
	h.checkReload(it, woff2, true)
}

// checkReload writes and parses a font and compares the result; swap continues with the parsed font.
func (h *hist) checkReload(it *item, woff2, swap bool) {
	b, ok := h.output(it, woff2)
	if !ok {
		return
	}
	h.judge(it, b, woff2)
	if h.e.Failed() {
		return
	}
	g := newGuard(b, "file written by operation "+fmt.Sprint(h.oi))
	f, err, ok := h.parseBack(it, g.Bytes(), woff2)
	if !ok {
		return
	}
	h.e.Event("reload %v", err)
	check := (woff2 && h.o.WOFF2 || !woff2 && h.o.Reload) && !h.silent
	if err != nil {
		h.e.Probe("reload_error")
		if check || h.o.Structure || h.o.Identity {
			h.fail("written font unreadable", "%s (%d glyphs) was written but does not parse: %v", it.Made, it.F.NumGlyphs(), err)
		}
		return
	}
	h.e.Probe("reload")
	if check {
		h.e.Nontrivial = true
		x := TakeSnap(h.e, it.F, LFields, it.Made)
		y := TakeSnap(h.e, f, LFields, it.Made+" read back")
		if x == nil || y == nil {
			return
		}
		opt := DiffOpt{Fields: true}
		if woff2 && it.F.Head != nil && f.Head != nil {
			// the format requires this flag ("the font was compressed") to be set
			head := *f.Head
			head.Flags[11] = it.F.Head.Flags[11]
			y.Fields["head"] = Dump(&head)
		}
		if it.F.OS2 != nil && it.F.OS2.Version <= 1 {
			opt.SkipOS2 = true // some fields are estimated when parsing
		}
		if c, msg := Diff(x, y, opt); c != "" {
			h.fail("read back: "+c, "%s read back differs: %s", it.Made, msg)
			return
		}
	}
	if h.o.Names {
		h.checkNames(it, f, "in the written file")
	}
	if !swap || h.e.Failed() {
		return
	}
	it.F = f
	it.Snap = nil
	if woff2 {
		it.Guard = nil
	} else {
		it.Guard = g
	}
	it.Made += fmt.Sprintf(", reloaded by operation %d", h.oi)
	h.verify(it, nil, nil, nil)
}

// ---- generation

// HGen says which histories to generate.
type HGen struct {
	Weights map[string]int // operation kind to weight
	Kinds   []string       // font kinds
	MinOps  int
	MaxOps  int
	Notdef  int // percent of subsets whose list starts with .notdef
	Files   int // percent of cases with a real font
	Mixed   int // percent of cases whose fonts are of different kinds
	NameBad bool
	Sel     []int // table selections
}

func genHist(r *simrt.Rand, c *harness.Case, g HGen) {
	kinds := g.Kinds
	if kinds == nil {
		kinds = []string{"ttf", "ttf", "cff"}
	}
	kind := kinds[r.Intn(len(kinds))]
	nf := 1 + r.Intn(3)
	if g.Weights["mrg"] > 0 && nf == 1 {
		nf = 2
	}
	bases := r.Perm(10)
	for i := 0; i < nf; i++ {
		k := kind
		if r.Bool(g.Mixed) {
			k = kinds[r.Intn(len(kinds))]
		}
		s := fontgen.Random(r, k)
		if s.Cmap == 1 || s.Cmap == 2 || s.Cmap == 3 {
			// mostly disjoint characters, so that merges succeed
			if b := []int{33, 65, 0x3B1, 0x4E00, 0xF000, 0xD7F0, 0xFF00, 0x1F600, 0xFFF8, 0x10FFF0}[bases[i]]; b < 0xFFF0 || s.Cmap&2 != 0 {
				s.RuneBase = b
			}
		}
		if i > 0 && r.Bool(15) {
			s = c.Fonts[0] // two copies of one font
		}
		c.Fonts = append(c.Fonts, s)
	}
	file := false
	if r.Bool(g.Files) {
		name := []string{"DejaVuSerif.ttf", "EBGaramond12-Regular.otf"}[r.Intn(2)]
		if kind == "ttf" {
			name = "DejaVuSerif.ttf"
		} else if kind == "cff" {
			name = "EBGaramond12-Regular.otf"
		}
		c.Fonts[0] = fontgen.Spec{Kind: "file", File: name}
		file = true
	}
	ks := make([]string, 0, len(g.Weights))
	for k := range g.Weights {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	total := 0
	for _, k := range ks {
		total += g.Weights[k]
	}
	max := g.MaxOps
	if c.Tier == "thorough" {
		max += max / 2
	}
	n := r.Range(g.MinOps, max)
	sels := g.Sel
	if sels == nil {
		sels = []int{0, 0, 0, 1, 1, 2, 3, 4}
	}
	genSub := func(font, glyphs int) harness.Op {
		a := []int{font, sels[r.Intn(len(sels))] + 5*r.Intn(1000)}
		if r.Bool(g.Notdef) {
			a = append(a, 0)
		}
		k := 1 + r.Intn(2+glyphs*3/2)
		if r.Bool(10) {
			k = glyphs * 2
		}
		switch r.Intn(4) {
		case 0: // a run of glyphs
			s := r.Intn(glyphs + 1)
			for i := 0; i < k; i++ {
				a = append(a, s+i)
			}
		case 1: // a permutation
			for _, x := range r.Perm(glyphs) {
				if len(a) < k+3 {
					a = append(a, x)
				}
			}
		default:
			for i := 0; i < k; i++ {
				a = append(a, r.Intn(5000))
			}
		}
		if len(a) == 2 {
			a = append(a, r.Intn(100))
		}
		return harness.Op{K: "sub", A: a}
	}
	fonts := nf
	if file && r.Bool(85) {
		// work on a small part of the real font
		op := genSub(0, 20+r.Intn(30))
		for i := 3; i < len(op.A); i++ {
			op.A[i] = r.Intn(3400)
		}
		c.Ops = append(c.Ops, op)
		fonts++
	}
	for len(c.Ops) < n {
		x := r.Intn(total)
		k := ""
		for _, k = range ks {
			x -= g.Weights[k]
			if x < 0 {
				break
			}
		}
		f := r.Intn(fonts)
		if file && r.Bool(80) {
			f = 1 + r.Intn(fonts)
		}
		switch k {
		case "sub":
			if fonts < maxPool {
				fonts++
			}
			c.Ops = append(c.Ops, genSub(f, 4+r.Intn(12)))
		case "mrg":
			c.Ops = append(c.Ops, harness.Op{K: k, A: []int{f, r.Intn(fonts), r.Intn(5) / 3}})
		case "nam":
			m := r.Intn(7)
			if g.NameBad {
				m = r.Intn(10)
			} else if m == 4 {
				m = 0
			}
			c.Ops = append(c.Ops, harness.Op{K: k, A: []int{f, m, r.Intn(1000)}})
		default:
			c.Ops = append(c.Ops, harness.Op{K: k, A: []int{f}})
		}
	}
}
