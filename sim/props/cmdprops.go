package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"image"
	_ "image/gif"
	_ "image/jpeg"
	_ "image/png"
	"path"
	"sort"
	"strings"
	"unicode"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/fontgen"
	"github.com/tdewolff/font/zzverif/harness"
	simos "github.com/tdewolff/font/zzverif/simos"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// RunTool is the main function of the command line tool; set by its simulation binary.
var RunTool func()

// CmdAll are the simulated properties of the command line tool.
var CmdAll = map[string]harness.Prop{"C16": cmdProp{"C16"}, "C17": cmdProp{"C17"}}

func init() {
	for id := range CmdAll {
		Infos[id] = harness.Info{Quick: 24000, Thorough: 900000, Batch: 100,
			Real: []string{"the command line tool fontcmd, every line of the working tree, instrumented", "package font, every line of the working tree, instrumented", "tdewolff/argp (with redirected file system and printing), tdewolff/canvas, golang.org/x/image, golang.org/x/text, brotli, zlib"},
			Stub: []string{"operating system, standard streams and process exit: simulated, with injected faults", "the question of tdewolff/prompt: answered from the simulated standard input", "wall clock, map iteration order: simulated"},
			Rule: "A run is one to three invocations of the tool on one simulated disk, with injected I/O faults; non-trivial when the tool ran to its end."}
	}
}

type cmdProp struct{ id string }

func (p cmdProp) ID() string { return p.id }

var cmdKinds = []string{"subset", "subset", "subset", "subset", "merge", "merge", "css", "css", "info", "draw"}

func (p cmdProp) Gen(r *simrt.Rand, c *harness.Case) {
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		s := fontgen.Random(r, "ttf", "ttf", "cff")
		s.Glyphs = min(s.Glyphs, 40)
		s.Huge = 0
		if s.RuneBase != 33 && r.Bool(20) {
			s.RuneBase = []int{1, 1, 5, 20, 80, 95}[r.Intn(6)] // control characters too
		}
		if s.Kind == "ttf" && r.Bool(3) {
			s = fontgen.Spec{Kind: "file", File: "DejaVuSerif.ttf"}
		}
		c.Fonts = append(c.Fonts, s)
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		o := harness.Op{K: cmdKinds[r.Intn(len(cmdKinds))]}
		for j := 0; j < 16; j++ {
			o.A = append(o.A, r.Intn(1<<32))
		}
		c.Ops = append(c.Ops, o)
	}
	c.P["wrap"] = r.Intn(1 << 20)
	if r.Bool(10) {
		c.P["room"] = 1 + r.Intn(6000)
	}
	if r.Bool(60) {
		c.Faults.Rates = map[string]int{}
		for _, k := range []string{"open", "create", "stat", "read", "write", "close", "wclose", "stdin", "stdout", "rename", "remove", "sync", "truncate"} {
			for _, f := range []string{"enoent", "eacces", "emfile", "eio", "enospc", "short"} {
				if k == "stat" && f == "enoent" {
					continue // a file that is there isn't reported as missing
				}
				if r.Bool(25) {
					c.Faults.Rates[k+"."+f] = 10 + r.Intn(250)
				}
			}
		}
		if r.Bool(20) {
			c.Faults.Rates["crash"] = 10 + r.Intn(100)
		}
		if r.Bool(20) {
			c.Faults.Rates["crashafter"] = 20 + r.Intn(300)
		}
		c.Faults.Max = 1 + r.Intn(4)
	}
}

// weighted picks an index by weights; small numbers pick the first.
func weighted(a int, ws ...int) int {
	total := 0
	for _, w := range ws {
		total += w
	}
	a = mod(a, total)
	for i, w := range ws {
		if a < w {
			return i
		}
		a -= w
	}
	return 0
}

// invocation is one run of the tool and what is expected of it.
type invocation struct {
	kind    string
	args    []string
	stdin   []byte
	inputs  []string
	outputs []string
	force   bool
	add     bool // css: append
	enc     string
	typ     string
	index   int
	usage   bool // the arguments themselves are wrong
	ids     func(f *font.SFNT) ([]uint16, bool)
	pattern string
	rearr   bool

	before map[string][]byte
	agreed map[string]bool // outputs that may be written
	// expectation without faults
	ok       bool
	unsure   bool   // may succeed or fail
	hopeless string // an output that cannot be written as asked
	reason   string
	want     *Snap
	isCFF    bool
	css      []cssLine
	tags     []string
}

type cssLine struct {
	name  string
	runes []rune
}

const cmdDir = "/w/"

func (p cmdProp) tree(c *harness.Case, e *harness.Env, d *simos.Disk) (exts []string) {
	r := simrt.NewRand(uint64(c.P["wrap"]))
	var all [][]byte
	for i := range c.Fonts {
		b, _ := fontgen.Build(c.Fonts[i], harness.File)
		all = append(all, b)
		ext := ".ttf"
		if string(b[:4]) == "OTTO" {
			ext = ".otf"
		}
		exts = append(exts, ext)
		version, ts := fontgen.Split(b)
		base := fmt.Sprintf(cmdDir+"f%d", i)
		d.Put(base+ext, b)
		d.Put(base+".woff2", fontgen.WOFF2(version, ts, r))
		w, _ := fontgen.WOFF(version, ts, r)
		d.Put(base+".woff", w)
		if i == 0 {
			d.Put(base+".eot", fontgen.EOT(b, r, r.Bool(50)))
			d.Put(cmdDir+"bad"+ext, b[:r.Intn(len(b))])
			d.Put(cmdDir+"deny"+ext, b)
			d.Deny(cmdDir + "deny" + ext)
			d.Put(cmdDir+"dir/keep"+ext, b)
		}
	}
	d.Put(cmdDir+"c.ttc", fontgen.TTC(all, r))
	for _, s := range []string{"empty.ttf", "empty.otf", "empty.woff2", "empty.css"} {
		d.Put(cmdDir+s, nil)
	}
	d.Put(cmdDir+"note.txt", []byte("this is not a font"))
	for _, s := range []string{"old.ttf", "old.otf", "old.woff2", "old.css", "old.png", "old"} {
		d.Put(cmdDir+s, []byte(strings.Repeat("old content of "+s+"\n", 1+r.Intn(400))))
	}
	d.Put(cmdDir+"ro/keep", []byte("kept"))
	d.DenySearch(cmdDir + "ro")
	return
}

func contents(d *simos.Disk) map[string][]byte {
	m := map[string][]byte{}
	for _, f := range d.Files() {
		m[f], _ = d.Get(f)
	}
	return m
}

func abs(p string) string {
	if !path.IsAbs(p) {
		p = cmdDir + p
	}
	return path.Clean(p)
}

// plan turns an operation into a command line.
func (p cmdProp) plan(c *harness.Case, op harness.Op, d *simos.Disk, exts []string) *invocation {
	v := &invocation{kind: op.K, before: contents(d), agreed: map[string]bool{}}
	n := len(exts)
	input := func(a int) (string, string) {
		i := mod(a/100, n)
		f := fmt.Sprintf("f%d", i)
		switch weighted(a, 70, 10, 4, 2, 4, 3, 1, 2, 1, 1, 1, 3) {
		case 1:
			return f + ".woff2", exts[i]
		case 2:
			return f + ".woff", exts[i]
		case 3:
			return "f0.eot", exts[0]
		case 4:
			v.index = mod(a/7, n+1)
			return "c.ttc", exts[mod(v.index, n)]
		case 5:
			return "bad" + exts[0], exts[0]
		case 6:
			return "empty.ttf", ".ttf"
		case 7:
			return "missing.ttf", ".ttf"
		case 8:
			return "note.txt", ".ttf"
		case 9:
			return "deny" + exts[0], exts[0]
		case 10:
			return "dir", ".ttf"
		case 11:
			return "-", exts[i]
		}
		return f + exts[i], exts[i]
	}
	lines := []string{"y", "n", "yes", "", "Y", "nope"}
	answers := ""
	for i, k := 0, mod(op.Arg(2), 4); i < k; i++ {
		answers += lines[weighted(op.Arg(2)/(7+5*i), 6, 3, 1, 1, 1, 1)] + "\n"
	}
	v.stdin = []byte(answers)

	// inputs
	nin := 1
	if op.K == "merge" {
		nin = []int{2, 2, 2, 3, 1}[weighted(op.Arg(1), 4, 4, 4, 2, 1)]
	}
	ext := ""
	for i := 0; i < nin; i++ {
		a := op.Arg(3 + i)
		if op.K == "merge" && i > 0 && mod(op.Arg(1), 3) > 0 {
			a = a%70 + 100*(i+op.Arg(3)/100) // another font
		}
		in, x := input(a)
		if in == "-" && i > 0 {
			in = fmt.Sprintf("f0%s", exts[0])
		}
		if ext == "" {
			ext = x
		}
		if in == "-" {
			v.stdin, _ = d.Get(fmt.Sprintf(cmdDir+"f%d%s", mod(a/100, n), exts[mod(a/100, n)]))
		}
		v.inputs = append(v.inputs, in)
	}
	if op.K == "merge" {
		v.index = 0
	}

	// outputs
	flags := op.Arg(6)
	quiet := mod(flags, 3) == 1
	v.force = mod(flags/3, 3) == 1
	nout := []int{1, 2, 3}[weighted(op.Arg(7), 6, 2, 1)]
	if op.K == "css" || op.K == "draw" {
		nout = 1
	} else if op.K == "info" {
		nout = 0
	}
	for i := 0; i < nout; i++ {
		a := op.Arg(8 + i)
		x := ext
		switch op.K {
		case "css":
			x = ".css"
		case "draw":
			x = []string{".png", ".gif", ".jpg", ".tiff", ".txt"}[weighted(a/64, 6, 3, 3, 2, 1)]
		default:
			if mod(a/64, 3) == 1 {
				x = ".woff2"
			} else if mod(a/64, 19) == 2 {
				x = []string{".otf", ".ttf", ".woff", ".xyz", ""}[mod(a/1024, 5)]
			}
		}
		out := ""
		switch weighted(a, 30, 20, 3, 2, 2, 3, 3, 2, 2) {
		case 0:
			out = fmt.Sprintf("out%d%s", i, x)
		case 1:
			out = "old" + x
		case 2:
			out = "dir"
		case 3:
			out = "ro/x" + x
		case 4:
			out = "missing/x" + x
		case 5:
			out = v.inputs[0]
		case 6:
			out = "-"
		case 7:
			out = "dir/keep" + x
		case 8:
			out = "empty" + x
		}
		if out == "-" && (op.K == "css" || op.K == "draw" || nout > 1) {
			out = fmt.Sprintf("out%d%s", i, x)
		}
		v.outputs = append(v.outputs, out)
	}
	omit := op.K == "subset" && mod(flags/9, 7) == 1
	if omit {
		v.outputs = []string{v.inputs[0]}
	}

	// command line
	v.args = []string{"fontcmd", op.K}
	if quiet && op.K != "info" && op.K != "draw" {
		v.args = append(v.args, "--quiet")
	}
	if v.force && op.K != "info" && op.K != "draw" {
		v.args = append(v.args, "--force")
	}
	if !omit && nout > 0 {
		v.args = append(v.args, "-o", strings.Join(v.outputs, ","))
	}
	if op.K == "subset" || op.K == "css" || op.K == "draw" {
		if v.index != 0 {
			v.args = append(v.args, "-i", fmt.Sprint(v.index))
		}
	}
	if op.K == "subset" || op.K == "merge" {
		switch weighted(op.Arg(11), 20, 3, 1) {
		case 1:
			v.enc = "base64"
		case 2:
			v.enc = "rot13"
			v.usage = true
		}
		if v.enc != "" {
			v.args = append(v.args, "-e", v.enc)
		}
		v.typ = []string{"", "font/woff2", "font/truetype", "font/opentype", "font/x"}[weighted(op.Arg(11)/24, 20, 3, 2, 2, 1)]
		if v.typ != "" {
			v.args = append(v.args, "-t", v.typ)
		}
	}
	switch op.K {
	case "subset":
		p.selection(c, v, op)
	case "merge":
		v.rearr = mod(op.Arg(12), 2) == 1
		if v.rearr {
			v.args = append(v.args, "--rearrange-cmap")
		}
	case "css":
		v.pattern = []string{".%n", ".u%u", "i%i:before", "x%%%q%"}[weighted(op.Arg(12), 4, 2, 2, 1)]
		if v.pattern != ".%n" {
			v.args = append(v.args, "--selector", v.pattern)
		}
		v.add = mod(op.Arg(13), 4) == 1
		if v.add {
			v.args = append(v.args, "--append")
		}
	case "draw":
		v.args = append(v.args, "-g", fmt.Sprint(mod(op.Arg(12), 50)))
		if mod(op.Arg(13), 3) == 1 {
			v.args = append(v.args, "--scale", "1", "--ppem", "20")
		}
	}
	v.args = append(v.args, v.inputs...)
	return v
}

// selection adds the options that choose glyphs, and their meaning.
func (p cmdProp) selection(c *harness.Case, v *invocation, op harness.Op) {
	var sels []func(f *font.SFNT, set map[uint16]bool) bool
	for i, k := 0, weighted(op.Arg(12), 8, 4, 2, 1); i <= k && i < 4; i++ {
		a := op.Arg(12+i) / 16
		b := a / 16
		switch weighted(a, 8, 4, 4, 4, 3, 2, 2) {
		case 0: // a range of glyphs
			first := mod(b, 12)
			last := first + mod(b/12, 9)
			v.args = append(v.args, "-g", fmt.Sprintf("%d-%d", first, last))
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				for g := first; g <= last; g++ {
					set[uint16(g)] = true
				}
				return true
			})
		case 1: // single glyphs
			g1, g2 := mod(b, 40), mod(b/40, 10)
			if mod(b/400, 7) == 1 {
				g2 = []int{32767, 32768, 40000, 65535}[mod(b/2800, 4)] // beyond the font
			}
			v.args = append(v.args, "-g", fmt.Sprintf("%d,%d", g1, g2))
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				set[uint16(g1)], set[uint16(g2)] = true, true
				return true
			})
		case 2: // characters
			type cs struct {
				s  string
				rs [][2]rune
			}
			long := strings.Repeat("abcdefgh", 8)
			var longs [][2]rune
			for j := 'a'; j <= 'h'; j++ {
				longs = append(longs, [2]rune{j, j})
			}
			x := []cs{{"A", [][2]rune{{'A', 'A'}}}, {"a-fz", [][2]rune{{'a', 'f'}, {'z', 'z'}}}, {`\u0041\x42`, [][2]rune{{'A', 'B'}}},
				{`!-~`, [][2]rune{{'!', '~'}}}, {`α-ω`, [][2]rune{{'α', 'ω'}}}, {"x-", [][2]rune{{'x', 'x'}, {'-', '-'}}}, {`\-z`, [][2]rune{{'-', '-'}, {'z', 'z'}}},
				{`\U0001F600`, [][2]rune{{0x1F600, 0x1F600}}}, {`\x4`, [][2]rune{{'\\', '\\'}, {'x', 'x'}, {'4', '4'}}}, {long[:60] + `\u00`, append(longs, [][2]rune{{'\\', '\\'}, {'u', 'u'}, {'0', '0'}}...)},
				{long[:61] + `\x4`, append(longs, [][2]rune{{'\\', '\\'}, {'x', 'x'}, {'4', '4'}}...)}, {long[:62] + `\U`, append(longs, [][2]rune{{'\\', '\\'}, {'U', 'U'}}...)}}[weighted(b, 6, 6, 4, 4, 2, 2, 2, 2, 1, 1, 1, 1)]
			if mod(b/64, 3) == 1 { // pieces of all kinds, one after the other
				r := simrt.NewRand(uint64(b))
				x = cs{}
				plain := []rune("ABCXYZabcxyz0189 .;:!?αβж一") // neither comma nor dash nor backslash
				one := func() (string, rune) {
					u := []rune{rune(1 + r.Intn(31)), rune(33 + r.Intn(94)), rune(0xA0 + r.Intn(0x60)), rune(0x3B1 + r.Intn(20)), rune(0x4E00 + r.Intn(60))}[r.Intn(5)]
					hex := func(n int, q rune) string {
						h := fmt.Sprintf("%0*x", n, q)
						if r.Bool(50) {
							h = strings.ToUpper(h)
						}
						return h
					}
					switch r.Intn(6) {
					case 0, 1:
						q := plain[r.Intn(len(plain))]
						return string(q), q
					case 2:
						k := r.Intn(8)
						return `\` + string("abtnvfr\\"[k]), []rune{7, 8, 9, 10, 11, 12, 13, '\\'}[k]
					case 3:
						return `\x` + hex(2, u&0xFF), u & 0xFF
					case 4:
						return `\u` + hex(4, u), u
					}
					return `\U` + hex(8, u), u
				}
				for n := 1 + r.Intn(6); n > 0; n-- {
					t, q := one()
					if r.Bool(10) {
						t, q = `\-`, '-'
					}
					x.s += t
					if q2 := q + rune(r.Intn(5)); r.Bool(25) && q != '-' && q2 != '-' {
						x.s += "-" + fmt.Sprintf(`\u%04x`, q2)
						x.rs = append(x.rs, [2]rune{q, q2})
						continue
					}
					x.rs = append(x.rs, [2]rune{q, q})
				}
			}
			v.args = append(v.args, "-c", x.s)
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				for _, r := range x.rs {
					for q := r[0]; q <= r[1]; q++ {
						set[f.GlyphIndex(q)] = true
					}
				}
				return true
			})
		case 3: // code points
			first := rune([]int{0x21, 0x41, 0x3B1, 0xE000, 0xF000, 0xFFF0, 0x1F600}[mod(b, 7)])
			last := first + rune(mod(b/7, 60))
			form := "%x-%x"
			if mod(b/512, 3) == 1 {
				form = "%X-%X"
			}
			extra := rune(-1)
			if first == last && mod(b/2048, 3) > 0 {
				v.args = append(v.args, "-u", fmt.Sprintf(form[:2], first))
			} else if mod(b/2048, 4) == 1 {
				extra = rune(mod(b/8192, 256))
				v.args = append(v.args, "-u", fmt.Sprintf("%X,"+form, extra, first, last))
			} else {
				v.args = append(v.args, "-u", fmt.Sprintf(form, first, last))
			}
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				if extra >= 0 {
					set[f.GlyphIndex(extra)] = true
				}
				for q := first; q <= last; q++ {
					set[f.GlyphIndex(q)] = true
				}
				return true
			})
		case 4: // names
			names := [][]string{{"A"}, {"g0001", "space"}, {"a", "b", "zz.none"}, {"n1", "n2"}}[mod(b, 4)]
			if mod(b/4, 2) == 1 && len(c.Fonts) > 0 { // names of the first font
				g := fmt.Sprintf("g%dx", c.Fonts[0].Seed%97)
				names = []string{fmt.Sprint(g, mod(b/8, 30)), fmt.Sprint(g, mod(b/240, 10))}
			}
			v.args = append(v.args, "-n", strings.Join(names, ","))
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				for _, n := range names {
					set[f.FindGlyphName(n)] = true
				}
				return true
			})
		case 5: // categories and scripts
			name := []string{"Lu", "L", "Latin", "Nd", "Greek", "Co", "Cn", "C", "Zs", "Qq"}[mod(b, 10)]
			v.args = append(v.args, "-r", name)
			sels = append(sels, func(f *font.SFNT, set map[uint16]bool) bool {
				t := unicode.Categories[name]
				if t == nil {
					t = unicode.Scripts[name]
				}
				if t == nil {
					return false
				}
				for _, x := range t.R16 {
					for q := int(x.Lo); q <= int(x.Hi); q += int(x.Stride) {
						set[f.GlyphIndex(rune(q))] = true
					}
				}
				for _, x := range t.R32 {
					for q := int(x.Lo); q <= int(x.Hi); q += int(x.Stride) {
						set[f.GlyphIndex(rune(q))] = true
					}
				}
				return true
			})
		case 6: // mistakes
			bad := [][]string{{"-g", "x"}, {"-g", "5-2"}, {"-u", "zz"}, {"-u", "50-41"}, {"-g", "70000"}, {"-g", "3-"}, {"-g", "65530-65536"}, {"-g", "-3"}, {"-g", "65536"}, {"-u", "-5"}, {"-u", "41-"}}[mod(b, 11)]
			v.args = append(v.args, bad...)
			sels = append(sels, func(*font.SFNT, map[uint16]bool) bool { return false })
		}
	}
	v.ids = func(f *font.SFNT) ([]uint16, bool) {
		set := map[uint16]bool{0: true}
		for _, s := range sels {
			if !s(f, set) {
				return nil, false
			}
		}
		var ids []uint16
		for g := range set {
			ids = append(ids, g)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		return ids, true
	}
	if mod(op.Arg(15), 5) == 1 {
		v.pattern = []string{"n%i", "u%u", "%n"}[mod(op.Arg(15)/5, 3)]
		v.args = append(v.args, "--glyph-name", v.pattern)
	}
}

// name does what the documentation says of name patterns.
func patName(pattern string, f *font.SFNT, id uint16) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(pattern); i++ {
		if pattern[i] != '%' || i+1 == len(pattern) {
			b.WriteByte(pattern[i])
			continue
		}
		i++
		switch pattern[i] {
		case '%':
			b.WriteByte('%')
		case 'i':
			fmt.Fprintf(&b, "%d", id)
		case 'n':
			if f.GlyphName(id) == "" {
				return "", false
			}
			b.WriteString(f.GlyphName(id))
		case 'u':
			rs := f.GlyphToUnicode(id)
			if len(rs) == 0 {
				return "", false
			}
			fmt.Fprintf(&b, "%x", rs[0])
		}
	}
	return b.String(), true
}

// load reads an input as it is on the disk, without faults.
func (v *invocation) load(d *simos.Disk, name string, index int) (*font.SFNT, bool) {
	var b []byte
	if name == "-" {
		b = v.stdin
	} else {
		x, ok := v.before[abs(name)]
		if !ok || strings.HasPrefix(name, "deny") || strings.HasPrefix(name, "ro/") {
			return nil, false
		}
		b = x
	}
	b, err := font.ToSFNT(append([]byte(nil), b...))
	if err != nil {
		return nil, false
	}
	f, err := font.ParseSFNT(b, index)
	return f, err == nil
}

var cmdMime = map[string]string{".ttf": "tt", ".ttc": "tt", ".otf": "ot", ".otc": "ot", ".woff2": "w2", ".woff": "no", ".eot": "no", "font/truetype": "tt", "font/opentype": "ot", "font/woff2": "w2"}

// format of an output: "tt", "ot", "w2" or "no" for those that can't be written.
func (v *invocation) format(out string, d *simos.Disk) string {
	m, ok := cmdMime[path.Ext(out)]
	if v.typ != "" {
		if m = cmdMime[v.typ]; m == "" {
			m = "no"
		}
	} else if !ok {
		m = "no"
		if v.kind == "subset" {
			// that of the input
			b := v.stdin
			if v.inputs[0] != "-" {
				b = v.before[abs(v.inputs[0])]
			}
			if len(b) >= 4 {
				switch string(b[:4]) {
				case "\x00\x01\x00\x00", "true":
					m = "tt"
				case "OTTO":
					m = "ot"
				case "wOF2":
					m = "w2"
				case "ttcf":
					m = "ttc"
				}
			}
		}
	}
	return m
}

// expect works out what the invocation should do.
func (v *invocation) expect(d *simos.Disk) {
	old := simtime.Clock
	defer func() { simtime.Clock = old }()
	simtime.SetClock(simtime.Unix(1600000000, 0).UTC(), 0, nil)
	no := func(format string, a ...interface{}) {
		if v.reason == "" {
			v.reason = fmt.Sprintf(format, a...)
		}
	}
	if v.usage {
		no("wrong usage")
	}
	if v.kind == "info" {
		b, ok := v.before[abs(v.inputs[0])]
		if !ok || strings.HasPrefix(v.inputs[0], "deny") {
			no("%s cannot be read", v.inputs[0])
			return
		}
		b, err := font.ToSFNT(append([]byte(nil), b...))
		if err != nil {
			no("%s is not a font: %v", v.inputs[0], err)
			return
		}
		if len(b) < 12 {
			no("%s is too short", v.inputs[0])
			return
		}
		if string(b[:4]) != "ttcf" {
			n := be16(b[4:])
			if len(b) < 12+16*n {
				no("the directory of %s is cut short", v.inputs[0])
				return
			}
			for i := 0; i < n; i++ {
				v.tags = append(v.tags, string(b[12+16*i:16+16*i]))
			}
		}
		v.ok = true
		return
	}
	index := v.index
	f, ok := v.load(d, v.inputs[0], index)
	if !ok {
		no("%s is no readable font", v.inputs[0])
		return
	}
	switch v.kind {
	case "draw":
		v.ok = true
		v.reason = "?" // whether a glyph can be drawn at this size is the tool's affair
		v.ok = false
		return
	case "css":
		for g := 1; g < int(f.NumGlyphs()); g++ {
			rs := f.GlyphToUnicode(uint16(g))
			if name, ok := patName(v.pattern, f, uint16(g)); ok && len(rs) > 0 {
				v.css = append(v.css, cssLine{name, rs})
			}
		}
	case "subset":
		ids, ok := v.ids(f)
		if !ok {
			no("bad selection of glyphs")
			return
		}
		names := make([]string, len(ids))
		if v.pattern != "" {
			for i, id := range ids {
				if n, ok := patName(v.pattern, f, id); ok {
					names[i] = n
				}
			}
		}
		if f.IsCFF && v.pattern == "" {
			f.CFF.SetGlyphNames(nil)
		}
		s, err := f.Subset(ids, font.SubsetOptions{Tables: font.KeepMinTables})
		if err != nil {
			no("subset: %v", err)
			return
		}
		if v.pattern != "" {
			if err := s.SetGlyphNames(names); err != nil {
				no("names: %v", err)
				return
			}
		}
		f = s
	case "merge":
		for _, in := range v.inputs[1:] {
			f2, ok := v.load(d, in, 0)
			if !ok {
				no("%s is no readable font", in)
				return
			}
			if err := f.Merge(f2, font.MergeOptions{RearrangeCmap: v.rearr}); err != nil {
				no("merge: %v", err)
				return
			}
		}
	}
	if v.kind != "css" {
		g, err := font.ParseSFNT(f.Write(), 0)
		if err != nil {
			no("not parseable: %v", err)
			return
		}
		v.want, v.isCFF = take(g, LQuery), f.IsCFF
	}

	// outputs
	answers := strings.Split(string(v.stdin), "\n")
	answer := func() bool {
		if v.inputs[0] == "-" || len(answers) == 0 {
			return false
		}
		a := strings.ToLower(answers[0])
		answers = answers[1:]
		return a == "y" || a == "yes"
	}
	for _, in := range v.inputs {
		if in == "-" {
			answers = nil // standard input has been used up
		}
	}
	exists := map[string]bool{}
	for p := range v.before {
		exists[p] = true
	}
	for _, p := range []string{"dir", "ro"} {
		exists[abs(p)] = true
	}
	for _, out := range v.outputs {
		if v.kind != "css" {
			m := v.format(out, d)
			if m == "ttc" {
				v.unsure = true // a collection without a type for the output
			} else if m == "no" || m == "tt" && f.IsCFF || m == "ot" && f.IsTrueType {
				no("%s cannot be written in that format", out)
				v.hopeless = abs(out)
				return
			}
			if m == "w2" {
				if _, err := f.WriteWOFF2(); err != nil {
					no("woff2: %v", err)
					return
				}
			}
		}
		if out == "-" {
			continue
		}
		if v.add {
			v.agreed[abs(out)] = true
		} else if strings.HasPrefix(out, "ro/") {
			no("%s cannot be reached", out)
			return
		} else if exists[abs(out)] {
			if !v.force && !answer() {
				no("overwriting %s was not allowed", out)
				return
			}
			v.agreed[abs(out)] = true
		}
		if out == "dir" || strings.HasPrefix(out, "ro/") || strings.HasPrefix(out, "missing/") || strings.HasPrefix(out, "deny") {
			no("%s cannot be created", out)
			return
		}
		exists[abs(out)] = true
	}
	if v.reason == "" {
		v.ok = !v.unsure
	}
}

// produced checks one output of a command that reported success.
func (v *invocation) produced(e *harness.Env, out string, d *simos.Disk, stdout []byte) string {
	b, ok := d.Get(abs(out))
	if out == "-" {
		b, ok = stdout, true
	}
	if !ok {
		return "is missing"
	}
	switch v.kind {
	case "css":
		if v.add {
			pre := v.before[abs(out)]
			if !bytes.HasPrefix(b, pre) {
				return "lost what was in it before"
			}
			b = b[len(pre):]
		}
		rest := string(b)
		for _, l := range v.css {
			ok := false
			for _, r := range l.runes {
				s := fmt.Sprintf("%s{content:\"\\%x\"}\n", l.name, r)
				if strings.HasPrefix(rest, s) {
					rest, ok = rest[len(s):], true
					break
				}
			}
			if !ok {
				return fmt.Sprintf("lacks the line of %q (rest of %d bytes: %.60q)", l.name, len(rest), rest)
			}
		}
		if rest != "" {
			return fmt.Sprintf("has something more: %.60q", rest)
		}
	case "draw":
		if path.Ext(out) == ".tiff" {
			return ""
		}
		if _, _, err := image.Decode(bytes.NewReader(b)); err != nil {
			return "is no complete image: " + err.Error()
		}
	default:
		if v.enc == "base64" {
			x, err := base64.StdEncoding.DecodeString(string(b))
			if err != nil {
				return "is not base64: " + err.Error()
			}
			b = x
		}
		sig := ""
		if len(b) >= 4 {
			sig = string(b[:4])
		}
		if m := v.format(out, d); m == "w2" && sig != "wOF2" || m == "tt" && sig != "\x00\x01\x00\x00" && sig != "true" || m == "ot" && sig != "OTTO" {
			return fmt.Sprintf("starts with %q", sig)
		}
		x, err := font.ToSFNT(b)
		if err != nil {
			return "is no complete font: " + err.Error()
		}
		f, err := font.ParseSFNT(x, 0)
		if err != nil {
			return "is no complete font: " + err.Error()
		}
		if what, msg := Diff(v.want, take(f, LQuery), DiffOpt{}); what != "" {
			return "is not the font asked for: " + msg
		}
	}
	return ""
}

func (p cmdProp) Exec(c *harness.Case, e *harness.Env) {
	if len(c.Fonts) == 0 {
		return
	}
	d := simos.NewDisk()
	e.InstallDisk(d)
	d.Armed = false
	exts := p.tree(c, e, d)
	d.PutDir("/w")
	for k, op := range c.Ops {
		d.Armed = false
		simos.Chdir("/w")
		v := p.plan(c, op, d, exts)
		if o := e.Quietly(func() { v.expect(d) }); !o.OK() {
			v.ok, v.reason = false, "the library itself fails: "+o.Class()
			if v.want == nil && v.kind != "css" && v.kind != "info" {
				return // C09's and others' business
			}
		}
		if c.P["room"] != 0 {
			used := 0
			for _, b := range v.before {
				used += len(b)
			}
			d.Capacity = used + c.P["room"]
		}
		simos.SimProcess(v.args, v.stdin, nil)
		logged, fired := len(d.Log), len(d.Fired)
		d.Armed = true
		o := e.Do(600e6, RunTool)
		d.Armed = false
		stdout, stderr := simos.SimOutput()
		code := 0
		if o.Kind == "exit" {
			code = o.Code
		}
		log := append([]simos.OpRec(nil), d.Log[logged:]...)
		faults := len(d.Fired) - fired
		e.Event("%s %q -> %q %d %x", v.kind, v.args[1:], o.Kind, code, fontgen.Checksum(stdout))
		after := contents(d)
		d.Restart(false, nil)
		d.Capacity = 0
		simos.Chdir("/w")
		where := fmt.Sprintf("invocation %d, %q (answers %.20q)", k, v.args, v.stdin)
		if v.inputs[0] == "-" {
			where = fmt.Sprintf("invocation %d, %q", k, v.args)
		}
		e.Probe("cmd_" + v.kind)
		switch o.Kind {
		case "", "exit":
			e.Nontrivial = true
		case "crash":
			e.Probe("killed")
		default:
			if p.id == "C16" {
				e.Fail("tool "+o.Class(), "%s ended in %s: %s\n%s", where, o.Kind, o.Msg, o.Stack)
			}
			return
		}
		if p.id == "C16" && o.Kind != "crash" {
			p.status(e, v, d, code, faults, log, stdout, stderr, where)
		}
		if p.id == "C17" {
			p.files(e, v, after, o.Kind == "crash", code, log, where)
		}
		var changed []string
		for path, b := range after {
			if w, ok := v.before[path]; !ok || !bytes.Equal(b, w) {
				changed = append(changed, path)
			}
		}
		sort.Strings(changed)
		for _, path := range changed {
			e.Event("changed %s %d %x", path, len(after[path]), fontgen.Checksum(after[path]))
		}
		if e.Failed() {
			break
		}
	}
	d.Armed = true
	e.EndFaults()
}

// status judges the exit status.
func (p cmdProp) status(e *harness.Env, v *invocation, d *simos.Disk, code, faults int, log []simos.OpRec, stdout, stderr []byte, where string) {
	lost := "" // standard output that could not be written
	mute := false
	for _, l := range log {
		if l.Err != "" && l.Path == "/dev/stdout" && l.Op == "stdout" {
			lost = l.Err
		}
		if l.Err != "" && l.Path == "/dev/stderr" {
			mute = true
		}
	}
	if code == 0 {
		e.Probe("exit_0")
		if v.kind == "draw" {
			for _, out := range v.outputs {
				if msg := v.produced(e, out, d, stdout); msg != "" {
					e.Fail("success without output", "%s exits with 0, but %s %s", where, out, msg)
				}
			}
			return
		}
		if v.reason != "" {
			e.Fail("success though it cannot have succeeded", "%s exits with 0, but %s; standard output %.200q", where, v.reason, stdout)
			return
		}
		if v.kind == "info" {
			if lost != "" {
				e.Fail("success without output", "%s exits with 0, but writing to standard output failed: %s", where, lost)
				return
			}
			rest := string(stdout)
			for i, t := range v.tags {
				j := strings.Index(rest, fmt.Sprintf("%2d  %s", i, t))
				if j < 0 {
					e.Fail("success without output", "%s exits with 0, but its output lacks table %q", where, t)
					return
				}
				rest = rest[j+1:]
			}
			return
		}
		for i, out := range v.outputs {
			again := false
			for _, o := range v.outputs[i+1:] {
				again = again || abs(o) == abs(out) && o != "-"
			}
			if again {
				continue
			}
			if msg := v.produced(e, out, d, stdout); msg != "" {
				e.Fail("success without output", "%s exits with 0, but %s %s", where, out, msg)
				return
			}
			e.Probe("outputs_judged")
		}
		return
	}
	e.Probe("exit_failure")
	if v.ok && faults == 0 && d.Capacity == 0 && e.Case.P["room"] == 0 {
		e.Fail("failure without reason", "%s exits with %d although nothing is wrong: %.300q", where, code, stderr)
		return
	}
	said := false
	for _, l := range strings.Split(string(stderr), "\n") {
		if l != "" && !strings.HasPrefix(l, "WARNING") {
			said = true
		}
	}
	if !said && !mute {
		e.Fail("failure without message", "%s exits with %d without any message", where, code)
	}
}

// files judges what happened to the files.
func (p cmdProp) files(e *harness.Env, v *invocation, after map[string][]byte, killed bool, code int, log []simos.OpRec, where string) {
	outs := map[string]bool{}
	for _, o := range v.outputs {
		if o != "-" {
			outs[abs(o)] = true
		}
	}
	ins := map[string]bool{"/dev/stdin": true}
	for _, i := range v.inputs {
		ins[abs(i)] = true
	}
	unread := "" // an input that could not be read
	stuck := map[string]bool{}
	for _, l := range log {
		if l.Op == "remove" && l.Err != "" {
			stuck[l.Path], stuck[abs(l.Path)] = true, true
		}
	}
	for _, l := range log {
		if (l.Op == "open" || l.Op == "read" || l.Op == "stdin") && l.Err != "" && l.Err != "EOF" && (ins[l.Path] || ins[abs(l.Path)]) {
			if l.Op != "stdin" || v.inputs[0] == "-" {
				unread = l.Path + ": " + l.Err
			}
		}
	}
	var paths []string
	for p := range v.before {
		paths = append(paths, p)
	}
	for p := range after {
		if _, ok := v.before[p]; !ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, f := range paths {
		old, was := v.before[f]
		now, is := after[f]
		if was == is && bytes.Equal(old, now) {
			continue
		}
		e.Probe("files_changed")
		how := fmt.Sprintf("changed from %d to %d bytes", len(old), len(now))
		if !was {
			how = "was created"
		} else if !is {
			how = "was removed"
		}
		switch {
		case !outs[f]:
			if !was && (killed || stuck[f]) {
				continue // a temporary file may be left behind
			}
			e.Fail("another file changed", "%s: %s %s, which is not an output", where, f, how)
		case was && !is && !killed:
			e.Fail("output removed", "%s: %s %s", where, f, how)
		case was && v.kind != "draw" && !v.force && !v.agreed[f]:
			e.Fail("overwritten without permission", "%s: %s %s", where, f, how)
		case v.add && !bytes.HasPrefix(now, old):
			e.Fail("append lost content", "%s: %s %s", where, f, how)
		case unread != "" && code != 0:
			e.Fail("output touched though an input failed", "%s: %s %s, although an input could not be read (%s)", where, f, how, unread)
		case v.hopeless == f:
			e.Fail("output touched though it cannot be written", "%s: %s %s, although %s", where, f, how, v.reason)
		case v.want == nil && v.css == nil && v.kind != "draw" && v.reason != "":
			e.Fail("output touched though the input failed", "%s: %s %s, although %s", where, f, how, v.reason)
		default:
			continue
		}
		return
	}
}
