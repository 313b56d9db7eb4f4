package props

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	simos "github.com/tdewolff/font/zzverif/simos"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

func hashOf(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

// threads runs each thread's operations under the case's schedule on one shared value, and judges the
// answers against those given to lone callers.
func threads(c *harness.Case, e *harness.Env, limit uint64, op func(op harness.Op, th, k int) string, lone func(op harness.Op, th, k int) (string, bool)) {
	want := make([][]string, len(c.Threads))
	for i, ops := range c.Threads {
		want[i] = make([]string, len(ops))
		for k, o := range ops {
			var ok bool
			if want[i][k], ok = lone(o, i, k); !ok {
				return
			}
		}
	}
	got := make([][]string, len(c.Threads))
	fns := make([]func(), len(c.Threads))
	for i := range c.Threads {
		i := i
		got[i] = make([]string, len(c.Threads[i]))
		fns[i] = func() {
			for k, o := range c.Threads[i] {
				got[i][k] = op(o, i, k)
			}
		}
	}
	races := simrt.RaceErrors()
	outs := e.Concurrently(limit, fns)
	for i, o := range outs {
		if !o.OK() {
			e.Fail(o.Class()+" under concurrency", "thread %d ended in %s: %s\n%s", i, o.Kind, o.Msg, o.Stack)
			return
		}
	}
	e.Nontrivial = e.Switches > 0
	for i := range got {
		for k := range got[i] {
			e.Event("%d %d %s", i, k, got[i][k])
			e.Probe("op_" + c.Threads[i][k].K)
			if got[i][k] != want[i][k] {
				e.Fail("answer differs from a lone caller's", "thread %d operation %d (%v): %.300s, alone: %.300s", i, k, c.Threads[i][k], got[i][k], want[i][k])
				return
			}
		}
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		e.Fail("data race", "the race detector reports %d races", n)
	}
}

// ---- C01 ----

type c01 struct{}

func (c01) ID() string { return "C01" }

var fontOps = []string{"idx", "idx", "uni", "uni", "gname", "fname", "fname", "adv", "bounds", "path", "path", "kern", "met", "sub", "sub", "subname", "write", "woff2", "all"}

func (c01) Gen(r *simrt.Rand, c *harness.Case) {
	s := fontgen.Random(r, "ttf", "ttf", "cff", "cid")
	if s.Glyphs > 30 {
		s.Glyphs = 2 + r.Intn(30)
	}
	s.Subrs, s.GSubrs = min(s.Subrs, 120), min(s.GSubrs, 120)
	if r.Bool(1) {
		s = fontgen.Spec{Kind: "file", File: fontgen.Files[r.Intn(2)]}
	}
	c.Fonts = []fontgen.Spec{s}
	c.Clock = harness.Clock{Start: 1700000000}
	if r.Bool(15) {
		c.P["embedded"] = 1
	}
	nt := 2 + r.Intn(4)
	same := ""
	if r.Bool(50) { // everybody does the same thing at first
		same = fontOps[r.Intn(len(fontOps))]
	}
	for i := 0; i < nt; i++ {
		var ops []harness.Op
		for k := 1 + r.Intn(4); k > 0; k-- {
			o := harness.Op{K: fontOps[r.Intn(len(fontOps))], A: []int{r.Intn(100), r.Intn(100)}}
			if same != "" && len(ops) == 0 {
				o.K = same
			}
			if strings.HasPrefix(o.K, "sub") {
				o.A = []int{r.Intn(4)}
				if r.Bool(60) {
					o.A = append(o.A, 0)
				}
				for n := 1 + r.Intn(6); n > 0; n-- {
					o.A = append(o.A, r.Intn(100))
				}
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
}

func fontOp(f *font.SFNT, o harness.Op) string {
	n := int(f.NumGlyphs())
	g := uint16(mod(o.Arg(0), n))
	switch o.K {
	case "idx":
		res := ""
		for _, r := range f.GlyphToUnicode(g) {
			res += fmt.Sprint(f.GlyphIndex(r), f.GlyphIndex(r+1), " ")
		}
		return res + fmt.Sprint(f.GlyphIndex(rune(o.Arg(1)+30)), f.GlyphIndex('A'), f.GlyphIndex(0x10FFFF))
	case "uni":
		rs := append([]rune(nil), f.GlyphToUnicode(g)...)
		return fmt.Sprint(rs, f.GlyphToUnicode(uint16(mod(o.Arg(1), n))))
	case "gname":
		return f.GlyphName(g) + "," + f.GlyphName(uint16(mod(o.Arg(1), n)))
	case "fname":
		return fmt.Sprint(f.FindGlyphName(f.GlyphName(g)), f.FindGlyphName("A"), f.FindGlyphName("zz"), f.FindGlyphName(fmt.Sprintf("g%04d", g)))
	case "adv":
		return fmt.Sprint(f.GlyphAdvance(g), f.GlyphVerticalAdvance(g))
	case "bounds":
		a, b, c, d := f.GlyphBounds(g)
		return fmt.Sprint(a, b, c, d)
	case "path":
		p := &Rec{}
		err := f.GlyphPath(p, g, 0, float64(o.Arg(1)), 1, 1.0, font.NoHinting)
		return string(p.b) + fmt.Sprint(err)
	case "kern":
		k := 0
		for l := 0; l < min(n, 12); l++ {
			k = k*31 + int(f.Kerning(uint16(l), g))
		}
		return fmt.Sprint(k)
	case "met":
		a, b, c := f.VerticalMetrics()
		return fmt.Sprint(a, b, c, f.UnitsPerEm(), f.NumGlyphs())
	case "write":
		return hashOf(f.Write())
	case "woff2":
		b, err := f.WriteWOFF2()
		return hashOf(b) + fmt.Sprint(err)
	case "all":
		s := take(f, LQuery)
		return hashOf([]byte(fmt.Sprintf("%+v %+v %v", s.G, s.VM, len(s.Runes))))
	case "sub", "subname":
		var ids []uint16
		for _, x := range o.A[1:] {
			ids = append(ids, uint16(mod(x, n)))
		}
		tables := []([]string){font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables, font.KeepAllTables}[mod(o.Arg(0), 4)]
		sub, err := f.Subset(ids, font.SubsetOptions{Tables: tables})
		if err != nil {
			return "error"
		}
		res := ""
		if o.K == "subname" {
			names := make([]string, sub.NumGlyphs())
			for i := range names {
				names[i] = fmt.Sprintf("t%d.%d", o.Arg(0), i)
			}
			res = fmt.Sprint(sub.SetGlyphNames(names), sub.FindGlyphName(names[len(names)-1]))
		}
		s := take(sub, LQuery)
		return res + hashOf([]byte(fmt.Sprintf("%+v %+v", s.G, s.VM))) + hashOf(sub.Write())
	}
	return ""
}

func (p c01) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	b, _ := fontgen.Build(c.Fonts[0], harness.File)
	simtime.SetClock(simtime.Unix(1700000000, 0).UTC(), 0, nil)
	parse := func() (f *font.SFNT) {
		var err error
		o := e.Quietly(func() {
			if c.P["embedded"] != 0 {
				f, err = font.ParseEmbeddedSFNT(append([]byte(nil), b...), 0)
			} else {
				f, err = font.ParseSFNT(append([]byte(nil), b...), 0)
			}
		})
		if !o.OK() || err != nil {
			return nil // the subject of C09
		}
		return f
	}
	shared := parse()
	if shared == nil || shared.NumGlyphs() == 0 {
		return
	}
	cache := map[string]string{}
	threads(c, e, 400_000_000, func(o harness.Op, _, _ int) string {
		return fontOp(shared, o)
	}, func(o harness.Op, _, _ int) (string, bool) {
		key := o.String()
		if s, ok := cache[key]; ok {
			return s, true
		}
		f := parse()
		var s string
		out := e.Quietly(func() { s = fontOp(f, o) })
		cache[key] = s
		return s, out.OK() // a panic of a lone caller is the subject of other properties
	})
	if e.Failed() {
		return
	}
	// afterwards the font is still the same
	x, y := TakeSnap(e, shared, LWrite, "shared font"), TakeSnap(e, parse(), LWrite, "reference")
	if x == nil || y == nil {
		return
	}
	if cl, msg := Diff(y, x, DiffOpt{Fields: true}); cl != "" {
		e.Fail("font changed: "+cl, "after concurrent use: %s", msg)
	}
}

// ---- C15 ----

type c15 struct{}

func (c15) ID() string { return "C15" }

func (c15) Gen(r *simrt.Rand, c *harness.Case) {
	c.P["index"] = r.Intn(1 << 20)
	nt := 2 + r.Intn(4)
	for i := 0; i < nt; i++ {
		var ops []harness.Op
		for k := 1 + r.Intn(6); k > 0; k-- {
			switch x := r.Intn(12); {
			case x < 9:
				var fams []string
				for n := 1 + r.Intn(4); n > 0; n-- {
					if r.Bool(50) {
						fams = append(fams, genericPool[r.Intn(len(genericPool))])
					} else {
						fams = append(fams, famPool[r.Intn(len(famPool))])
					}
				}
				ops = append(ops, harness.Op{K: "match", S: strings.Join(fams, []string{",", ", ", " , "}[r.Intn(3)]), A: []int{r.Intn(40)}})
			case x < 11:
				ops = append(ops, harness.Op{K: "string"})
			default:
				ops = append(ops, harness.Op{K: "save"})
			}
		}
		c.Threads = append(c.Threads, ops)
	}
	if r.Bool(20) {
		c.P["loaded"] = 1
	}
}

func styleArg(n int) font.Style {
	if n == 39 {
		return font.UnknownStyle
	}
	s := stylePool[mod(n, len(stylePool))]
	if n >= 20 {
		s |= font.Italic
	}
	return s
}

// dumpIndex shows an index with the spare capacity of its lists.
func dumpIndex(s *font.SystemFonts) string {
	var b strings.Builder
	var ks []string
	for k := range s.Generics {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := s.Generics[k]
		fmt.Fprintf(&b, "%q: %d %q\n", k, len(l), l[:cap(l)])
	}
	ks = nil
	for k := range s.Fonts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%q: %v\n", k, s.Fonts[k]) // fmt sorts maps
	}
	return b.String()
}

func (p c15) Exec(c *harness.Case, e *harness.Env) {
	d := simos.NewDisk()
	d.PutDir("/out")
	simos.Install(d, simos.Plan{})
	seed := uint64(c.P["index"])
	mk := func() (s *font.SystemFonts) {
		s = genIndex(seed)
		if c.P["loaded"] != 0 {
			var err error
			e.Quietly(func() {
				if err = s.Save("/out/base"); err == nil {
					s, err = font.LoadSystemFonts("/out/base")
				}
			})
			if err != nil {
				return nil
			}
		}
		return
	}
	shared := mk()
	if shared == nil {
		return
	}
	before := dumpIndex(shared)
	op := func(s *font.SystemFonts, o harness.Op, file string) string {
		switch o.K {
		case "match":
			m, ok := s.Match(o.S, styleArg(o.Arg(0)))
			return fmt.Sprintf("%q %q %d %v", m.Filename, m.Family, m.Style, ok)
		case "string":
			return s.String()
		case "save":
			err := s.Save(file)
			b, _ := d.Get(file)
			return hashOf(b) + fmt.Sprint(err)
		}
		return ""
	}
	threads(c, e, 100_000_000, func(o harness.Op, th, k int) string {
		return op(shared, o, fmt.Sprintf("/out/t%d.%d", th, k))
	}, func(o harness.Op, th, k int) (string, bool) {
		s := mk()
		if s == nil {
			return "", false
		}
		res := ""
		out := e.Quietly(func() { res = op(s, o, "/out/alone") })
		if !out.OK() {
			e.Fail("lone "+out.Class(), "%v ended in %s: %s\n%s", o, out.Kind, out.Msg, out.Stack)
		}
		return res, out.OK()
	})
	if e.Failed() {
		return
	}
	if after := dumpIndex(shared); after != before {
		e.Fail("index changed", "before:\n%s\nafter:\n%s", before, after)
		return
	}
	// the answers to lookups depend on nothing that happened before
	for i, ops := range c.Threads {
		for k, o := range ops {
			if o.K != "match" {
				continue
			}
			var a, b string
			fresh := mk()
			e.Quietly(func() { a, b = op(shared, o, ""), op(fresh, o, "") })
			if a != b {
				e.Fail("lookup depends on earlier lookups", "thread %d operation %d (%v): %s, in a fresh index: %s", i, k, o, a, b)
				return
			}
		}
	}
}
