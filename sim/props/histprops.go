package props

import (
	"bytes"
	"fmt"

	"github.com/tdewolff/font"
	"github.com/tdewolff/font/zzverif/harness"
	"github.com/tdewolff/font/zzverif/simrt"
	simtime "github.com/tdewolff/font/zzverif/simtime"
)

// histProp is a property decided on histories of edits.
type histProp struct {
	id  string
	o   Opts
	g   HGen
	end func(h *hist)
}

func (p *histProp) ID() string                           { return p.id }
func (p *histProp) Gen(r *simrt.Rand, c *harness.Case)   { genHist(r, c, p.g) }
func (p *histProp) Exec(c *harness.Case, e *harness.Env) { p.exec(e) }

func (p *histProp) exec(e *harness.Env) *hist {
	h := newHist(e, p.o)
	if len(e.Case.Fonts) == 0 || !h.start() {
		return h
	}
	h.run()
	if !e.Failed() && p.end != nil {
		p.end(h)
	}
	if !e.Failed() {
		h.guards()
	}
	return h
}

var histRules = "A run is one history of edits on generated or real fonts; it is non-trivial when at least one of the property's checks was made. "

// C02 is the frame condition of subsetting and writing.
var C02 = &histProp{id: "C02", o: Opts{Frame: true}, g: HGen{
	Weights: map[string]int{"sub": 6, "wr": 2, "w2": 2, "q": 1, "rel": 1},
	Kinds:   []string{"ttf", "ttf", "cff", "cid"}, MinOps: 1, MaxOps: 6, Notdef: 70, Files: 5},
	end: func(h *hist) {
		for _, it := range h.pool {
			if it.Snap != nil {
				h.e.Nontrivial = true
			}
			h.same(it, "font changed later", it.Made)
		}
	}}

// C03 is the independence of merged fonts.
var C03 = &histProp{id: "C03", o: Opts{Indep: true}, g: HGen{
	Weights: map[string]int{"mrg": 8, "sub": 4, "nam": 3, "wr": 1, "q": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 2, MaxOps: 8, Notdef: 85, Files: 4},
	end: func(h *hist) {
		for _, it := range h.pool {
			h.same(it, "font changed later", it.Made)
		}
		h.mergeAgain()
	}}

// mergeAgain merges every font into two fresh copies of a root and into a fresh copy of its reloaded
// self: merging must not have used the font up.
func (h *hist) mergeAgain() {
	for k, it := range h.pool {
		if h.e.Failed() || it.F.NumGlyphs() < 2 || k > 4 {
			return
		}
		var target *item
		for _, r := range h.roots {
			if r.F.IsCFF == it.F.IsCFF && r.F.NumGlyphs() < 600 {
				target = r
				break
			}
		}
		if target == nil {
			continue
		}
		var file []byte
		if !h.do("Write", func() { file = fixedWrite(target.F) }) {
			return
		}
		var snaps [2]*Snap
		var errs [2]error
		for i := range snaps {
			t, err := font.ParseSFNT(append([]byte(nil), file...), 0)
			if err != nil {
				return
			}
			if !h.do("Merge", func() { errs[i] = t.Merge(it.F, font.MergeOptions{RearrangeCmap: true}) }) {
				return
			}
			if errs[i] == nil {
				if snaps[i] = TakeSnap(h.e, t, h.level(), "merge result"); snaps[i] == nil {
					return
				}
			}
		}
		h.e.Nontrivial = true
		if (errs[0] == nil) != (errs[1] == nil) {
			h.fail("second merge differs", "merging %s twice gave %v and %v", it.Made, errs[0], errs[1])
		} else if errs[0] == nil {
			if c, msg := Diff(snaps[0], snaps[1], DiffOpt{Fields: true, Bytes: true}); c != "" {
				h.fail("second merge differs: "+c, "merging %s into two copies of the same font gave different fonts: %s", it.Made, msg)
			}
		}
		h.same(it, "the merged-in font changed by Merge", it.Made)
	}
}

// C05 is saving and reloading.
var C05 = &histProp{id: "C05", o: Opts{Reload: true}, g: HGen{
	Weights: map[string]int{"sub": 6, "mrg": 4, "nam": 3, "rel": 4, "q": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 80, Files: 5},
	end: func(h *hist) {
		for _, it := range h.pool {
			h.checkReload(it, false, false)
			if h.e.Failed() {
				return
			}
		}
	}}

// C06 is the trip through WOFF2.
var C06 = &histProp{id: "C06", o: Opts{WOFF2: true}, g: HGen{
	Weights: map[string]int{"sub": 6, "mrg": 3, "nam": 2, "relw2": 3, "rel": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 0, MaxOps: 5, Notdef: 85, Files: 4},
	end: func(h *hist) {
		for _, it := range h.pool {
			h.checkReload(it, true, false)
			if h.e.Failed() {
				return
			}
		}
	}}

// C08 is the structure of written files.
var C08 = &histProp{id: "C08", o: Opts{Structure: true}, g: HGen{
	Weights: map[string]int{"sub": 6, "mrg": 4, "nam": 2, "rel": 2, "wr": 2, "w2": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 80, Files: 5},
	end: func(h *hist) {
		for i, it := range h.pool {
			if b, ok := h.output(it, false); ok {
				h.judge(it, b, false)
			}
			if !h.e.Failed() && i%2 == int(h.e.Case.Seed%2) {
				if b, ok := h.output(it, true); ok {
					h.judge(it, b, true)
				}
			}
			if h.e.Failed() {
				return
			}
		}
	}}

// C19 is the identity of glyphs.
var C19 = &histProp{id: "C19", o: Opts{Identity: true}, g: HGen{
	Weights: map[string]int{"sub": 6, "mrg": 5, "rel": 2, "relw2": 1, "q": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 92, Files: 6},
	end: func(h *hist) {
		for _, it := range h.pool {
			h.verify(it, nil, nil, nil)
			if h.e.Failed() {
				return
			}
		}
	}}

// C21 is glyph names.
var C21 = &histProp{id: "C21", o: Opts{Names: true}, g: HGen{
	Weights: map[string]int{"nam": 8, "mrg": 3, "rel": 3, "q": 2, "sub": 1, "w2": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 90, Files: 3, NameBad: true},
	end: func(h *hist) {
		for _, it := range h.pool {
			h.checkNames(it, it.F, "at the end")
			if it.Named && !h.e.Failed() {
				h.checkReload(it, false, false)
			}
			if h.e.Failed() {
				return
			}
		}
	}}

// C20 runs a history, then again without the operations that failed.
var C20 = &c20{histProp{id: "C20", o: Opts{Atomic: true}, g: HGen{
	Weights: map[string]int{"sub": 4, "mrg": 7, "nam": 5, "wr": 1, "w2": 1, "q": 1},
	Kinds:   []string{"ttf", "ttf", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 80, Files: 3, Mixed: 25, NameBad: true}}}

type c20 struct{ histProp }

func (p *c20) Exec(c *harness.Case, e *harness.Env) {
	h := p.exec(e)
	if e.Failed() || len(h.pool) == 0 {
		return
	}
	if len(h.failed) == 0 {
		return
	}
	e.Nontrivial = true
	e.ProbeN("failed_edits", len(h.failed))
	twin := newHist(e, Opts{})
	twin.silent = true
	twin.skip = map[int]bool{}
	for _, i := range h.failed {
		twin.skip[i] = true
	}
	if !twin.start() {
		return
	}
	twin.run()
	if e.Failed() {
		return
	}
	if len(twin.failed) > 0 {
		h.fail("operation fails only without the failed ones", "without the failed operations %v, operations %v fail", h.failed, twin.failed)
		return
	}
	if len(twin.pool) != len(h.pool) {
		h.fail("twin", "%d and %d fonts", len(h.pool), len(twin.pool))
		return
	}
	for i := range h.pool {
		a := TakeSnap(e, twin.pool[i].F, h.level(), "font without the failed operations")
		b := TakeSnap(e, h.pool[i].F, h.level(), h.pool[i].Made)
		if a == nil || b == nil {
			return
		}
		if c, msg := Diff(a, b, DiffOpt{Fields: true, Bytes: true}); c != "" {
			h.fail("later result differs: "+c, "%s is not what it is without the failed operations %v: %s", h.pool[i].Made, h.failed, msg)
			return
		}
	}
}

// C07 runs a history twice under different map orders, clocks and earlier work.
var C07 = &c07{histProp{id: "C07", g: HGen{
	Weights: map[string]int{"sub": 6, "mrg": 4, "nam": 3, "wr": 4, "w2": 3, "rel": 1, "relw2": 1},
	Kinds:   []string{"ttf", "ttf", "ttf", "cff", "cff", "cid"}, MinOps: 1, MaxOps: 8, Notdef: 85, Files: 4}}}

type c07 struct{ histProp }

func (p *c07) Exec(c *harness.Case, e *harness.Env) {
	type output struct {
		b     []byte
		woff2 bool
		clock []int64
	}
	fixed := c.Seed%2 == 0 // both executions at the same time
	clock := simtime.Clock
	once := func(only bool) (outs []output) {
		h := newHist(e, Opts{})
		if !h.start() {
			return nil
		}
		h.run()
		if e.Failed() {
			return nil
		}
		h.clocks = nil
		for i, it := range h.pool {
			for _, w := range []bool{false, true} {
				b, ok := h.output(it, w)
				if e.Failed() {
					return nil
				}
				if !ok {
					outs = append(outs, output{nil, w, nil})
					continue
				}
				var cl []int64
				for _, t := range h.clocks[len(h.clocks)-1] {
					cl = append(cl, t.Unix()+macEpoch)
				}
				outs = append(outs, output{b, w, cl})
				_ = i
			}
		}
		return
	}
	first := once(false)
	if e.Failed() || first == nil {
		return
	}
	// different circumstances
	simrt.SetMapOrder((c.MapMode+1+int(c.Seed%3))%4, c.MapSeed+1)
	r := simrt.NewRand(simrt.Mix(c.Seed, 77))
	for i := r.Intn(3); i > 0; i-- {
		other := &harness.Case{Seed: c.Seed + uint64(i), P: map[string]int{}}
		genHist(r, other, p.g)
		if len(other.Ops) > 3 {
			other.Ops = other.Ops[:3]
		}
		oe := &harness.Env{Case: other, Probes: map[string]int{}, Fired: map[string]int{}}
		h := newHist(oe, Opts{})
		if h.start() {
			h.run()
		}
	}
	cl := harness.RandomClock(r)
	simtime.SetClock(simtime.Unix(cl.Start, 0), simtime.Duration(cl.Step)*simtime.Second, nil)
	if fixed {
		simtime.Clock = clock
	}
	second := once(true)
	if e.Failed() {
		return
	}
	e.Nontrivial = true
	if len(first) != len(second) {
		e.Fail("number of outputs", "%d and %d outputs", len(first), len(second))
		return
	}
	for i := range first {
		a, b := first[i], second[i]
		if (a.b == nil) != (b.b == nil) {
			e.Fail("outcome differs", "output %d fails only once", i)
			return
		}
		if a.b == nil {
			continue
		}
		if fixed && !bytes.Equal(a.b, b.b) {
			// nothing is hidden by compression
			e.Fail("output differs", "output %d (WOFF2 %v) of %d and %d bytes differs under another map order or past", i, a.woff2, len(a.b), len(b.b))
			return
		}
		fa, fb := a.b, b.b
		if a.woff2 {
			var ea, eb error
			o := e.Do(opLimit, func() {
				fa, ea = font.ToSFNT(fa)
				fb, eb = font.ToSFNT(fb)
			})
			if !o.OK() {
				return // the subject of C06
			}
			if ea != nil || eb != nil {
				if (ea == nil) != (eb == nil) {
					e.Fail("outcome differs", "output %d is readable only once: %v and %v", i, ea, eb)
				}
				continue
			}
		}
		for _, x := range []struct {
			f     []byte
			clock []int64
		}{{fa, a.clock}, {fb, b.clock}} {
			t := rawTables(x.f)["head"]
			if len(t) == 54 {
				m := int64(uint64(be32(t[28:]))<<32 | uint64(be32(t[32:])))
				ok := false
				for _, v := range x.clock {
					ok = ok || v == m
				}
				if !ok && (!a.woff2 || len(x.clock) > 0) {
					e.Fail("modification time", "output %d (WOFF2 %v) has modification time %d, the clock said %v", i, a.woff2, m, x.clock)
					return
				}
			}
		}
		na, nb := neutral(fa), neutral(fb)
		if string(na) != string(nb) {
			e.Fail("output differs", "output %d (WOFF2 %v) differs under another map order, clock or past: %s", i, a.woff2, diffTables(na, nb))
			return
		}
		e.Probe("outputs_compared")
	}
}

const macEpoch = 2082844800

// neutral removes what the clock may decide from a file.
func neutral(b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) < 12 {
		return b
	}
	n := be16(b[4:])
	for i := 0; i < n && 28+16*i <= len(b); i++ {
		p := 12 + 16*i
		if string(b[p:p+4]) == "head" {
			off := int(be32(b[p+8:]))
			if off+36 <= len(b) {
				copy(b[off+8:off+12], []byte{0, 0, 0, 0})
				copy(b[off+28:off+36], []byte{0, 0, 0, 0, 0, 0, 0, 0})
			}
			copy(b[p+4:p+8], []byte{0, 0, 0, 0})
		}
	}
	return b
}

var _ = fmt.Sprint
