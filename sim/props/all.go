package props

import "github.com/tdewolff/font/zzverif/harness"

// All are the simulated properties of the font package.
var All = map[string]harness.Prop{}

// Infos says how they are searched.
var Infos = map[string]harness.Info{}

func reg(p harness.Prop, i harness.Info) {
	All[p.ID()] = p
	Infos[p.ID()] = i
}

var realLib = []string{"package font (parsers, queries, subsetter, merger, writers), every line of the working tree, instrumented", "golang.org/x/text, tdewolff/parse, brotli, zlib"}
var stubLib = []string{"operating system (os, path/filepath, io/ioutil): simulated file system", "wall clock: simulated", "map iteration order: decided by the simulator"}

func init() {
	hist := func(p harness.Prop, quick, thorough int, rule string) {
		reg(p, harness.Info{Quick: quick, Thorough: thorough, Batch: 100, Rule: histRules + rule, Real: realLib, Stub: stubLib})
	}
	hist(C02, 16000, 300000, "Checked: the font and the arguments of every subset and write.")
	hist(C03, 9000, 300000, "Checked: every other font after each merge and rename, and a repeated merge.")
	hist(C05, 16000, 300000, "Checked: each font of the pool against its written and parsed self.")
	hist(C06, 16000, 300000, "Checked: each font of the pool against its WOFF2 self.")
	hist(C07, 9000, 300000, "Checked: all outputs of two executions of the history.")
	hist(C08, 16000, 300000, "Checked: each written file against the OpenType rules.")
	hist(C19, 16000, 300000, "Checked: each glyph against the font it came from.")
	hist(C20, 16000, 300000, "Checked: fonts after a failing edit, and the history without the failing edits.")
	hist(C21, 60000, 300000, "Checked: all names after each assignment, merge and reload.")

	sysReal := []string{"package font: FindSystemFonts, LoadSystemFonts, SystemFonts.Save/Match/String/Add and the name table reader, every line of the working tree, instrumented", "encoding/gob (with sorted map iteration), golang.org/x/text, io/fs walking"}
	sysStub := []string{"operating system (os, path/filepath, io/ioutil): simulated file system with injected faults", "map iteration order: decided by the simulator"}
	reg(c13{}, harness.Info{Quick: 200000, Thorough: 1500000, Batch: 400, Real: sysReal, Stub: sysStub,
		Rule: "A run is one history of saves, loads, restarts and crashes on simulated index files under injected I/O faults; it is non-trivial when at least one load ran to its end and was judged."})
	reg(c14{}, harness.Info{Quick: 150000, Thorough: 8000000, Batch: 300, Real: sysReal, Stub: sysStub,
		Rule: "A run is one to three searches of a generated directory tree under injected I/O faults, compared with a reference search; non-trivial when a search ended."})
	reg(c18{}, harness.Info{Quick: 300000, Thorough: 6000000, Batch: 300, Real: sysReal, Stub: sysStub,
		Rule: "A run is one history of searches, saves and loads under injected I/O faults and a limit on open files; non-trivial when a call opened a file."})
	reg(c01{}, harness.Info{Quick: 12000, Thorough: 150000, Batch: 60, Real: append([]string{"the race detector, over all of it"}, realLib...), Stub: append([]string{"goroutine scheduling and sync: seeded scheduler"}, stubLib...),
		Rule: "A run is one interleaving of 2-5 goroutines on one freshly parsed font, each answer compared with a lone caller's on a font of its own; non-trivial when at least one context switch happened."})
	reg(c15{}, harness.Info{Quick: 15000, Thorough: 1500000, Batch: 200, Real: append([]string{"the race detector, over all of it"}, sysReal...), Stub: append([]string{"goroutine scheduling and sync: seeded scheduler"}, sysStub...),
		Rule: "A run is one interleaving of 2-5 goroutines on one generated index, each answer compared with a lone caller's; non-trivial when at least one context switch happened."})

	reg(c04{}, harness.Info{Quick: 40000, Thorough: 800000, Batch: 100, Real: realLib, Stub: stubLib,
		Rule: "A run hands one font, in some container and possibly damaged, to conversions, parsers and a history of edits in buffers watched up to and beyond their end; non-trivial when something was converted or parsed."})
	reg(c10{}, harness.Info{Quick: 30000, Thorough: 800000, Batch: 100, Real: realLib, Stub: stubLib,
		Rule: "A run reads one font in some container undamaged and after each of up to 24 separate faults; non-trivial when the undamaged file was judged."})
	reg(c11{}, harness.Info{Quick: 100000, Thorough: 3000000, Batch: 100, Real: realLib, Stub: append([]string{"the stream: simulated"}, stubLib...),
		Rule: "A run reads one font from one simulated stream; every run is non-trivial."})
	reg(c12{}, harness.Info{Quick: 40000, Thorough: 1000000, Batch: 100, Real: realLib, Stub: append([]string{"zlib and brotli: real, behind a meter"}, stubLib...),
		Rule: "A run converts one WOFF or WOFF2 file under one memory limit with the output of the decompressors metered; non-trivial when the conversion ended."})
	reg(c09{}, harness.Info{Quick: 120000, Thorough: 3000000, Batch: 100, Real: realLib, Stub: stubLib,
		Rule: "A run damages a font before or after it is put in its container, reads it and edits what was read; every run is non-trivial."})
}
