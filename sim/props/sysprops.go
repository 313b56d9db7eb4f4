package props

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	simos "github.com/tdewolff/font/zzverif/simos"
	"github.com/tdewolff/font/zzverif/simrt"
)

// ---- indexes ----

var famPool = []string{"DejaVu Serif", "DejaVu Sans", "Noto Serif", "Noto Sans", "A", "", "Überschrift", "Ā字體🙂", "serif", "Courier", "Times", "Impact", "x y z", "Long " + strings.Repeat("name ", 60)}
var stylePool = []font.Style{font.Thin, font.ExtraLight, font.Light, font.Regular, font.Medium, font.SemiBold, font.Bold, font.ExtraBold, font.Black}
var genericPool = []string{"serif", "sans-serif", "monospace", "cursive", "fantasy", "", "My Generic"}

// genIndex builds a system font index from a seed; the lists of generic names may have spare capacity.
// genEdited is a generated index after a change that keeps the length of everything.
func genEdited(seed uint64, edit int) *font.SystemFonts {
	s := genIndex(seed)
	if edit == 0 {
		return s
	}
	r := simrt.NewRand(simrt.Mix(seed, uint64(edit)))
	var fams []string
	for f := range s.Fonts {
		fams = append(fams, f)
	}
	sort.Strings(fams)
	for _, f := range fams {
		var styles []int
		for st := range s.Fonts[f] {
			styles = append(styles, int(st))
		}
		sort.Ints(styles)
		for _, st := range styles {
			m := s.Fonts[f][font.Style(st)]
			if r.Bool(60) && strings.HasPrefix(m.Filename, "/fonts/") {
				m.Filename = "/font" + string(rune('A'+edit%26)) + m.Filename[6:]
				s.Fonts[f][font.Style(st)] = m
			}
		}
	}
	return s
}

func genIndex(seed uint64) *font.SystemFonts {
	r := simrt.NewRand(simrt.Mix(seed, 0x1D))
	s := &font.SystemFonts{Generics: map[string][]string{}, Fonts: map[string]map[font.Style]font.FontMetadata{}}
	switch r.Intn(6) {
	case 0:
	case 1:
		s.Generics = font.DefaultGenericFonts()
	default:
		for _, g := range genericPool {
			if !r.Bool(60) {
				continue
			}
			n := r.Intn(4)
			list := make([]string, n, n+r.Intn(3)*4)
			for i := range list {
				list[i] = famPool[r.Intn(len(famPool))]
			}
			s.Generics[g] = list
		}
	}
	n := r.Intn(8)
	if r.Bool(10) {
		n = 60 + r.Intn(200)
	}
	for i := 0; i < n; i++ {
		fam := famPool[r.Intn(len(famPool))]
		if n > 20 {
			fam = fmt.Sprintf("Family %d of %d", i, n)
		}
		m := map[font.Style]font.FontMetadata{}
		for k := r.Intn(5); k >= 0; k-- {
			st := stylePool[r.Intn(len(stylePool))]
			if r.Bool(40) {
				st |= font.Italic
			}
			if r.Bool(3) {
				st = font.UnknownStyle
			}
			m[st] = font.FontMetadata{Filename: fmt.Sprintf("/fonts/%d/%d %s.ttf", seed%100, k, strings.Repeat("f", r.Intn(60))), Family: fam, Style: st}
		}
		if r.Bool(5) {
			m = map[font.Style]font.FontMetadata{}
		}
		s.Fonts[fam] = m
	}
	return s
}

// eqIndex compares indexes; empty and missing lists are the same.
func eqIndex(a, b *font.SystemFonts) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return "one is nil"
	}
	var ks []string
	for k := range a.Generics {
		ks = append(ks, k)
	}
	for k := range b.Generics {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a.Generics[k]
		y, ok2 := b.Generics[k]
		if ok1 != ok2 {
			return fmt.Sprintf("generic %q is in only one", k)
		}
		if len(x)+len(y) > 0 && !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("generic %q: %q and %q", k, x, y)
		}
	}
	ks = nil
	for k := range a.Fonts {
		ks = append(ks, k)
	}
	for k := range b.Fonts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a.Fonts[k]
		y, ok2 := b.Fonts[k]
		if ok1 != ok2 {
			return fmt.Sprintf("family %q is in only one", k)
		}
		if len(x)+len(y) > 0 && !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("family %q: %v and %v", k, x, y)
		}
	}
	return ""
}

// ---- trees of font files ----

type treeFont struct {
	path   string
	family string
	style  font.Style
	may    bool // damaged, but its names may still be readable
}

var styleNames = []struct {
	s string
	v font.Style
}{{"Regular", font.Regular}, {"Bold", font.Bold}, {"Italic", font.Regular | font.Italic}, {"Bold Italic", font.Bold | font.Italic}, {"Thin", font.Thin}, {"Light", font.Light}, {"Medium", font.Medium}, {"Black", font.Black}, {"SemiBold Italic", font.SemiBold | font.Italic}, {"ExtraBold", font.ExtraBold}, {"ExtraLight", font.ExtraLight}, {"Condensed", font.UnknownStyle}}

var treeFams = []string{"Alpha", "Beta Sans", "Gamma", "Überschrift", "Zeta 字", "Notes 🙂"}

// tree is the reference view of what was put on a disk.
type tree struct {
	disk     *simos.Disk
	fonts    map[string]treeFont // by path
	deny     map[string]bool     // files that cannot be opened, directories that cannot be listed
	noSearch map[string]bool     // directories whose entries cannot be reached
	dirs     []string
	links    map[string]string // symbolic links to directories, by path
	extra    []string          // other paths to search
}

// buildTree fills a disk from a seed.
func buildTree(seed uint64, maxFiles int) *tree {
	r := simrt.NewRand(simrt.Mix(seed, 0x7EE))
	d := simos.NewDisk()
	t := &tree{disk: d, fonts: map[string]treeFont{}, deny: map[string]bool{}, noSearch: map[string]bool{}, links: map[string]string{}}
	t.dirs = []string{"/fonts"}
	d.PutDir("/fonts")
	for i, n := 0, r.Intn(6); i < n; i++ {
		p := t.dirs[r.Intn(len(t.dirs))]
		if r.Bool(25) {
			p = ""
		}
		name := []string{"a", "b", "truetype", "x.ttf", "ü", ".hidden", "zz"}[r.Intn(7)]
		p = p + "/" + name
		if r.Bool(5) {
			p += "/deep/er"
			d.PutDir(path.Dir(path.Dir(p)))
			t.dirs = append(t.dirs, path.Dir(p))
		}
		d.PutDir(p)
		t.dirs = append(t.dirs, p)
	}
	for i, n := 0, 1+r.Intn(maxFiles); i < n; i++ {
		dir := t.dirs[r.Intn(len(t.dirs))]
		fam, sty := treeFams[r.Intn(len(treeFams))], styleNames[r.Intn(len(styleNames))]
		s := fontgen.Spec{Kind: []string{"ttf", "cff"}[r.Intn(2)], Seed: uint64(r.Intn(3)), Glyphs: 2 + r.Intn(3), Cmap: 1, RuneBase: 65,
			Family: fam, Style: sty.s, Pref: r.Bool(30), NameVar: r.Intn(128), OS2: 4, Extra: r.Bool(30)}
		b, _ := fontgen.Build(s, harness.File)
		ext := []string{".ttf", ".otf", ".ttf", ".otf", ".TTF", ".txt", "", ".ttf.bak", ".woff"}[r.Intn(9)]
		p := fmt.Sprintf("%s/f%d%s", dir, r.Intn(40), ext)
		if d.Has(p) {
			continue
		}
		isFont := (ext == ".ttf" || ext == ".otf") && sty.v != font.UnknownStyle
		tf := treeFont{path: p, family: fam, style: sty.v}
		switch k := r.Intn(20); {
		case k == 0:
			b, isFont = nil, false
		case k == 1: // not a font
			b = make([]byte, r.Intn(300))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			if len(b) > 4 {
				copy(b, "\xff\xd8\xff\xe0\x00\x10") // 16 tables, none of them plausible
			}
			isFont = false
		case k == 2: // cut short
			b = b[:r.Intn(len(b))]
			tf.may = true
		case k == 3: // the table directory only
			b = b[:12+16*be16(b[4:])]
			isFont = false
		case k == 4: // no name table
			for i := 12; i < 12+16*be16(b[4:]); i += 16 {
				if string(b[i:i+4]) == "name" {
					copy(b[i:], "nAme")
				}
			}
			isFont = false
		case k == 5:
			d.PutSpecial(p, []string{"fifo", "device"}[r.Intn(2)])
			continue
		case k == 6: // links are not followed
			d.PutSymlink(p, []string{"/fonts", "/nowhere", p, "f1.ttf", "/target.ttf"}[r.Intn(5)])
			continue
		}
		d.Put(p, b)
		if isFont {
			t.fonts[p] = tf
		}
		if r.Bool(6) {
			d.Deny(p)
			t.deny[p] = true
		}
	}
	b, _ := fontgen.Build(fontgen.Spec{Kind: "ttf", Glyphs: 2, Cmap: 1, RuneBase: 65, Family: "Linked"}, harness.File)
	d.Put("/target.ttf", b)
	t.fonts["/target.ttf"] = treeFont{path: "/target.ttf", family: "Linked", style: font.Regular}
	for i := 1; i < len(t.dirs); i++ {
		if r.Bool(8) {
			d.Deny(t.dirs[i])
			t.deny[t.dirs[i]] = true
		} else if r.Bool(5) {
			d.DenySearch(t.dirs[i])
			t.noSearch[t.dirs[i]] = true
		}
	}
	if r.Bool(20) {
		l := "/link"
		d.PutSymlink(l, "/fonts")
		t.links[l] = "/fonts"
		t.extra = append(t.extra, l)
	}
	t.extra = append(t.extra, "/missing", "/fonts/missing", "/target.ttf", "", "/target.ttf/below", "/fonts/", "fonts", "/fonts/../fonts", ".")
	return t
}

// pickDirs draws directories to search.
func (t *tree) pickDirs(r *simrt.Rand) []string {
	dirs := []string{"/fonts"}
	if r.Bool(30) {
		dirs = nil
	}
	for i := r.Intn(4); i > 0; i-- {
		if r.Bool(60) {
			dirs = append(dirs, t.dirs[r.Intn(len(t.dirs))])
		} else {
			dirs = append(dirs, t.extra[r.Intn(len(t.extra))])
		}
	}
	for i := range dirs {
		j := r.Intn(i + 1)
		dirs[i], dirs[j] = dirs[j], dirs[i]
	}
	return dirs
}

type found struct {
	treeFont
	real string // the path without links
}

// expect lists the fonts below the searched directories that must be found and those that may be,
// given the paths that were hit by faults.
func (t *tree) expect(dirs []string, hit map[string]bool) (must, may []found) {
	for _, dir := range dirs {
		if dir == "" {
			continue
		}
		abs := path.Clean("/" + dir)
		real := abs
		if l, ok := t.links[abs]; ok {
			real = l
		}
		for p, f := range t.fonts {
			if real != "/" && !strings.HasPrefix(p, real+"/") {
				continue
			}
			rel := strings.TrimPrefix(p, real)
			name := path.Join(dir, rel)
			g := found{f, p}
			g.path = name
			lost, uncertain := false, f.may
			for q := p; ; q = path.Dir(q) {
				if t.noSearch[q] || t.deny[q] && len(q) >= len(real) {
					lost = true // an unlistable directory above the searched one does not matter
				}
				as := path.Join(abs, strings.TrimPrefix(q, real))
				if len(q) < len(real) || !strings.HasPrefix(q, real) && real != "/" {
					as = q
				}
				if hit[as] || hit[q] {
					uncertain = true
				}
				if q == "/" {
					break
				}
			}
			if hit[abs] {
				uncertain = true
			}
			if lost {
				continue
			}
			if uncertain {
				may = append(may, g)
			} else {
				must = append(must, g)
			}
		}
	}
	return
}

func rates(r *simrt.Rand, kinds []string, scale int) map[string]int {
	m := map[string]int{}
	for _, k := range kinds {
		if r.Bool(40) {
			m[k] = 1 + r.Intn(scale)
		}
	}
	return m
}

// ---- C14 ----

type c14 struct{}

func (c14) ID() string { return "C14" }

func (c14) Gen(r *simrt.Rand, c *harness.Case) {
	c.P["tree"] = r.Intn(1 << 30)
	c.P["files"] = 3 + r.Intn(20)
	if r.Bool(70) {
		c.Faults.Rates = rates(r, []string{"short", "open.eio", "open.eacces", "open.emfile", "open.enoent", "read.eio", "stat.eio", "stat.eacces", "stat.enoent", "readdir.eio", "partial", "close"}, 120)
		if r.Bool(50) {
			c.Faults.Rates["short"] = 300 + r.Intn(700)
		}
		c.Faults.Max = 1 + r.Intn(12)
		if r.Bool(30) {
			c.Faults.Max = 0
		}
	}
	if r.Bool(30) {
		c.P["maxopen"] = 4 + r.Intn(6)
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		c.Ops = append(c.Ops, harness.Op{K: "find", A: []int{r.Intn(1 << 20)}})
	}
}

func (p c14) Exec(c *harness.Case, e *harness.Env) {
	t := buildTree(uint64(c.P["tree"]), max(1, c.P["files"]))
	t.disk.MaxOpen = c.P["maxopen"]
	e.InstallDisk(t.disk)
	defer e.EndFaults()
	for i, op := range c.Ops {
		dirs := t.pickDirs(simrt.NewRand(simrt.Mix(c.Seed, uint64(op.Arg(0)))))
		from := len(t.disk.Log)
		var idx *font.SystemFonts
		var err error
		arg := append([]string(nil), dirs...)
		out := e.Do(20_000_000, func() { idx, err = font.FindSystemFonts(arg) })
		what := fmt.Sprintf("operation %d: FindSystemFonts(%q)", i, dirs)
		if !out.OK() {
			e.Fail("search "+out.Class(), "%s ended in %s: %s\n%s", what, out.Kind, out.Msg, out.Stack)
			return
		}
		hit := map[string]bool{}
		nfault := 0
		for _, l := range t.disk.Log[from:] {
			if l.Fault != "" && l.Fault != "short" {
				hit[path.Clean("/"+l.Path)] = true
				nfault++
			}
		}
		e.Event("find %q %d faults: %v", dirs, nfault, err)
		e.Nontrivial = true
		if err != nil || idx == nil {
			e.Fail("search failed", "%s failed (%v) with faults at %v", what, err, hit)
			return
		}
		must, may := t.expect(dirs, hit)
		type key struct {
			fam string
			st  font.Style
		}
		cand := map[key]map[string]bool{}
		for _, f := range append(append([]found(nil), must...), may...) {
			k := key{f.family, f.style}
			if cand[k] == nil {
				cand[k] = map[string]bool{}
			}
			cand[k][f.path] = true
		}
		sort.Slice(must, func(i, j int) bool { return must[i].path < must[j].path })
		for _, f := range must {
			m, ok := idx.Fonts[f.family][f.style]
			if !ok {
				e.Fail("font not found", "%s did not find %s (%s, %v); faults at %v", what, f.path, f.family, f.style, hit)
				return
			}
			_ = m
		}
		total := 0
		var fams []string
		for fam := range idx.Fonts {
			fams = append(fams, fam)
		}
		sort.Strings(fams)
		for _, fam := range fams {
			for st := font.UnknownStyle; st < 600; st++ {
				m, ok := idx.Fonts[fam][st]
				if !ok {
					continue
				}
				total++
				if m.Family != fam || m.Style != st || !cand[key{fam, st}][m.Filename] {
					e.Fail("wrong entry", "%s lists %q %v as %+v, candidates %v", what, fam, st, m, cand[key{fam, st}])
					return
				}
				e.Event("%s %d %s", fam, st, m.Filename)
			}
		}
		n := 0
		for _, m := range idx.Fonts {
			n += len(m)
		}
		if n != total {
			e.Fail("wrong entry", "%s lists styles outside the known range", what)
			return
		}
		if !reflect.DeepEqual(idx.Generics, font.DefaultGenericFonts()) {
			e.Fail("generic fonts", "%s set the generic fonts to %v", what, idx.Generics)
			return
		}
		if !reflect.DeepEqual(arg, dirs) {
			e.Fail("arguments changed", "%s changed its argument to %q", what, arg)
			return
		}
		e.ProbeN("fonts_found", total)
		e.ProbeN("fonts_required", len(must))
		e.ProbeN("fonts_hit_by_faults", len(may))
		if nfault > 0 {
			e.Probe("searches_with_faults")
		}
	}
}

// ---- C13 ----

type c13 struct{}

func (c13) ID() string { return "C13" }

func (c13) Gen(r *simrt.Rand, c *harness.Case) {
	if r.Bool(80) {
		c.Faults.Rates = rates(r, []string{"create.eacces", "create.enospc", "create.emfile", "write.enospc", "write.eio", "crash", "crashafter", "wclose.eio", "short", "open.eio", "open.enoent", "read.eio", "sync", "rename.eio", "remove.eio"}, 250)
		if r.Bool(40) {
			c.Faults.Rates["short"] = 500
		}
		c.Faults.Max = 1 + r.Intn(6)
	}
	if r.Bool(15) {
		c.P["capacity"] = 200 + r.Intn(6000)
	}
	c.P["old"] = r.Intn(4)
	similar := r.Bool(50) // successive versions of one index
	base := r.Intn(1 << 16)
	if similar && r.Bool(70) {
		if c.Faults.Rates == nil {
			c.Faults.Rates = map[string]int{}
		}
		c.Faults.Rates["write.crash"], c.Faults.Max = 300, 1+r.Intn(3)
	}
	for i := 2 + r.Intn(9); i > 0; i-- {
		file := r.Intn(3)
		if r.Bool(70) {
			file = 0
		}
		switch r.Intn(5) {
		case 0, 1:
			if similar {
				c.Ops = append(c.Ops, harness.Op{K: "save", A: []int{file, base, r.Intn(8)}})
				continue
			}
			c.Ops = append(c.Ops, harness.Op{K: "save", A: []int{file, r.Intn(1 << 16)}})
		case 2, 3:
			c.Ops = append(c.Ops, harness.Op{K: "load", A: []int{file}})
		default:
			c.Ops = append(c.Ops, harness.Op{K: []string{"restart", "resave"}[r.Intn(2)], A: []int{file, r.Intn(3)}})
		}
	}
}

var indexFiles = []string{"/cache/fonts.gob", "/cache/sub/other", "/missing/fonts.gob"}

func (p c13) Exec(c *harness.Case, e *harness.Env) {
	d := simos.NewDisk()
	d.PutDir("/cache")
	d.PutDir("/cache/sub")
	garbage := map[int]bool{}
	switch c.P["old"] {
	case 1:
		d.Put(indexFiles[0], []byte(strings.Repeat("not an index ", 600)))
		garbage[0] = true
	case 2:
		d.Put("/cache/real", nil)
		d.PutSymlink(indexFiles[1], "/cache/real")
		garbage[1] = true
	}
	d.Capacity = c.P["capacity"]
	if d.Capacity > 0 {
		for _, f := range d.Files() {
			b, _ := d.Get(f)
			d.Capacity += len(b)
		}
	}
	e.InstallDisk(d)
	defer e.EndFaults()
	type state struct {
		last *font.SystemFonts   // what the last, successful save wrote
		ever []*font.SystemFonts // everything a save wrote or tried to write
		any  bool
	}
	st := map[int]*state{0: {}, 1: {}, 2: {}}
	var loaded *font.SystemFonts
	restart := func() {
		d.Restart(false, nil)
		d.Armed = true
		loaded = nil
		e.Probe("restarts")
	}
	faultsSince := func(from int) (n, reads, crashes int) {
		for _, l := range d.Log[from:] {
			if l.Fault == "" || l.Fault == "short" {
				continue
			}
			n++
			if strings.HasPrefix(l.Fault, "crash") {
				crashes++
			} else if l.Op == "read" || l.Op == "open" {
				reads++
			}
		}
		return
	}
	full := func() bool { return d.Capacity > 0 }
	for i, op := range c.Ops {
		file := mod(op.Arg(0), 3)
		s := st[file]
		name := indexFiles[file]
		from := len(d.Log)
		what := fmt.Sprintf("operation %d: %s %s", i, op.K, name)
		switch op.K {
		case "restart":
			restart()
		case "save", "resave":
			seed := uint64(op.Arg(1))
			edit := 0
			if op.K == "save" {
				edit = mod(op.Arg(2), 64)
			}
			idx := genEdited(seed, edit)
			ref := genEdited(seed, edit)
			if op.K == "resave" {
				if loaded == nil {
					continue
				}
				idx, ref = loaded, loaded
			}
			var err error
			out := e.Do(50_000_000, func() { err = idx.Save(name) })
			n, _, crashes := faultsSince(from)
			e.Event("%s: %s %v (%d faults)", what, out.Kind, err, n)
			s.any = true
			s.ever = append(s.ever, ref)
			if out.Kind == "crash" {
				s.last = nil
				restart()
				e.Probe("crashes_during_save")
				continue
			}
			if !out.OK() {
				e.Fail("save "+out.Class(), "%s ended in %s: %s\n%s", what, out.Kind, out.Msg, out.Stack)
				return
			}
			if op.K == "save" {
				if df := eqIndex(idx, ref); df != "" {
					e.Fail("save changed the index", "%s: %s", what, df)
					return
				}
			}
			if err != nil {
				s.last = nil
				e.Probe("failed_saves")
				if n == 0 && crashes == 0 && !full() && file != 2 {
					e.Fail("save failed without a fault", "%s: %v", what, err)
					return
				}
			} else {
				if file == 2 {
					e.Fail("save succeeded nowhere", "%s reports success although its directory does not exist", what)
					return
				}
				s.last = ref
				e.Probe("saves")
			}
		case "load":
			var idx *font.SystemFonts
			var err error
			out := e.Do(50_000_000, func() { idx, err = font.LoadSystemFonts(name) })
			n, reads, _ := faultsSince(from)
			e.Event("%s: %s %v (%d faults)", what, out.Kind, err, n)
			if out.Kind == "crash" {
				restart()
				continue
			}
			if !out.OK() {
				e.Fail("load "+out.Class(), "%s ended in %s: %s\n%s", what, out.Kind, out.Msg, out.Stack)
				return
			}
			e.Nontrivial = true
			if err != nil {
				e.Probe("failed_loads")
				if s.last != nil && n == 0 {
					e.Fail("saved index is refused", "%s: saving reported success, loading reports %v", what, err)
					return
				}
				continue
			}
			if reads > 0 {
				e.Fail("read error is not reported", "%s met %d I/O errors and reports success", what, reads)
				return
			}
			if !s.any && !garbage[file] {
				e.Fail("load of a missing file", "%s reports success, nothing was ever saved", what)
				return
			}
			if !s.any {
				continue
			}
			cands := s.ever
			if s.last != nil {
				cands = []*font.SystemFonts{s.last}
			}
			ok, df := false, ""
			for _, x := range cands {
				df = eqIndex(idx, x)
				if df == "" {
					ok = true
					break
				}
			}
			if !ok {
				e.Fail("another index is loaded", "%s (last save complete: %v): %s", what, s.last != nil, df)
				return
			}
			e.Probe("indexes_compared")
			// it can be used like the original
			o := e.Do(50_000_000, func() {
				if idx.String() != eventual(idx, cands).String() {
					df = "String differs"
				}
				for _, n := range famPool {
					a, ok1 := idx.Match(n+", serif", font.Bold)
					b, ok2 := eventual(idx, cands).Match(n+", serif", font.Bold)
					if a != b || ok1 != ok2 {
						df = fmt.Sprintf("Match(%q): %v %v and %v %v", n, a, ok1, b, ok2)
					}
				}
				cp, _ := font.LoadSystemFonts(name)
				if cp != nil {
					cp.Add(font.FontMetadata{Family: "Added", Style: font.Bold, Filename: "x"})
					if m, ok := cp.Match("Added", font.Bold); !ok || m.Filename != "x" {
						df = "an added font is not found"
					}
				}
			})
			if o.Kind == "crash" {
				restart()
				continue
			}
			if !o.OK() {
				e.Fail("loaded index "+o.Class(), "%s: using the index ended in %s: %s\n%s", what, o.Kind, o.Msg, o.Stack)
				return
			}
			if df != "" {
				e.Fail("loaded index differs", "%s: %s", what, df)
				return
			}
			loaded = idx
		}
	}
}

func eventual(idx *font.SystemFonts, cands []*font.SystemFonts) *font.SystemFonts {
	for _, x := range cands {
		if eqIndex(idx, x) == "" {
			return x
		}
	}
	return idx
}

// ---- C18 ----

type c18 struct{}

func (c18) ID() string { return "C18" }

func (c18) Gen(r *simrt.Rand, c *harness.Case) {
	c.P["tree"] = r.Intn(1 << 30)
	c.P["files"] = 3 + r.Intn(25)
	c.P["maxopen"] = []int{0, 2, 4, 6, 8}[r.Intn(5)]
	if r.Bool(75) {
		c.Faults.Rates = rates(r, []string{"short", "open.eio", "open.eacces", "open.enoent", "read.eio", "stat.eio", "readdir.eio", "partial", "close.eio", "wclose.eio", "create.eacces", "write.enospc", "write.eio", "sync.eio", "rename.eio", "remove.eio"}, 150)
		c.Faults.Max = 1 + r.Intn(10)
	}
	for i := 1 + r.Intn(8); i > 0; i-- {
		k := []string{"find", "find", "save", "load", "load", "loadbad"}[r.Intn(6)]
		c.Ops = append(c.Ops, harness.Op{K: k, A: []int{r.Intn(1 << 16), r.Intn(3)}})
	}
}

func (p c18) Exec(c *harness.Case, e *harness.Env) {
	t := buildTree(uint64(c.P["tree"]), max(1, c.P["files"]))
	d := t.disk
	d.MaxOpen = c.P["maxopen"]
	d.PutDir("/cache")
	d.PutDir("/cache/sub")
	e.InstallDisk(d)
	defer e.EndFaults()
	saved := map[string]bool{}
	for i, op := range c.Ops {
		name := indexFiles[mod(op.Arg(1), 3)]
		what := fmt.Sprintf("operation %d (%s)", i, op.K)
		from := len(d.Log)
		opened := d.Opened
		var err error
		var out harness.Outcome
		switch op.K {
		case "find":
			dirs := t.pickDirs(simrt.NewRand(simrt.Mix(c.Seed, uint64(op.Arg(0)))))
			out = e.Do(20_000_000, func() { _, err = font.FindSystemFonts(dirs) })
		case "save":
			idx := genIndex(uint64(op.Arg(0)))
			out = e.Do(50_000_000, func() { err = idx.Save(name) })
			if err == nil {
				saved[name] = true
			} else {
				saved[name] = false
			}
		case "load":
			out = e.Do(50_000_000, func() { _, err = font.LoadSystemFonts(name) })
		case "loadbad":
			out = e.Do(50_000_000, func() { _, err = font.LoadSystemFonts("/target.ttf") })
		}
		if !out.OK() {
			e.Fail("call "+out.Class(), "%s ended in %s: %s\n%s", what, out.Kind, out.Msg, out.Stack)
			return
		}
		faults := 0
		for _, l := range d.Log[from:] {
			if l.Fault != "" && l.Fault != "short" {
				faults++
			}
		}
		e.Event("%s: %v, opened %d", what, err, d.Opened-opened)
		if d.Opened > opened {
			e.Nontrivial = true
			e.ProbeN("files_opened", d.Opened-opened)
		}
		if left := d.OpenHandles(); len(left) > 0 {
			e.Fail("file left open", "%s (%v) left open: %v", what, err, left)
			return
		}
		if err != nil && faults == 0 && (op.K == "find" || op.K == "save" && !strings.HasPrefix(name, "/missing") || op.K == "load" && saved[name]) {
			e.Fail("call fails without a fault", "%s fails with %v under a limit of %d open files", what, err, d.MaxOpen)
			return
		}
	}
}
