# Writes /verif/properties.jsonl from the table below (kept as code so the wording is easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

HOOK="none in /repo: the check instruments a scratch copy of the working tree at build time"
p("C01","Goroutines sharing one parsed font get the answers a lone caller gets",
 "A font that has been parsed may be queried, subset and exported by any number of goroutines at once: character lookups in both directions, glyph names in both directions, advances, bounds, outlines, kerning, metrics, subsetting and writing. Under every interleaving each call returns exactly what it returns when it is the only caller, none panics or blocks for ever, and no two calls race on memory.",
 ["schedules","inputs"],"every interleaving of 2-5 goroutines issuing any mix of read-only and exporting operations against one shared font (TrueType, CFF, CID-keyed CFF; each kind of character map; names or no names), starting from a freshly parsed font so that every lazily built cache is cold",
 "No test uses two goroutines; the lazily built reverse character map and name index and the tables shared between a font and its subsets are only ever touched by one caller.",
 ["sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_subset.go","woff2.go"],
 [("lazily built reverse maps guarded by a once","sfnt_cmap.go ToUnicode, sfnt.go postTable.Find"),("subset copies the tables it changes","sfnt_subset.go Subset")],
 [("reverse character map cache","glyph to runes, built on first use","sfnt_cmap.go"),("name index cache","glyph name to glyph, built on first use","sfnt.go postTable")],None,HOOK)
p("C02","Subsetting and exporting leave the source font and the arguments alone",
 "Taking a subset of a font or writing a font in any format changes nothing about that font: every query answers as before and writing it again gives the same bytes. The caller's list of glyph IDs, including the memory behind it beyond its length, and the caller's table list are left as they were, also when the operation fails.",
 ["histories","inputs"],"every sequence of subset (any glyph list, any table selection, successful or failing), write, WOFF2 write and query operations on a font, and every sequence applied to its subsets afterwards",
 "The tests subset a font once and look only at the result, never at the source, at spare capacity of the argument, or at a second operation.",
 ["sfnt_subset.go","sfnt.go","woff2.go","sfnt_os2.go","sfnt_cff.go"],
 [("new font with its own tables","sfnt_subset.go Subset"),("composite glyphs are rewritten in the copy","sfnt_subset.go Subset, glyf case")],None,None,HOOK)
p("C03","Merging leaves the other font untouched and independent",
 "Merging a second font into a first changes nothing about the second: every query on it answers as before, it writes the same bytes, and it can be merged into further fonts with the same result. Nothing done later to either font (renaming glyphs, merging again, subsetting) shows in the other one.",
 ["histories","inputs"],"every sequence of merges, renames, subsets and writes over a pool of fonts, including fonts that came from subsetting or merging others in the pool and fonts merged more than once",
 "The tests merge two fixed subsets once and never look at the second font again.",
 ["sfnt_merge.go","sfnt_cff.go","sfnt.go"],
 [("char strings copied before renumbering","sfnt_merge.go Merge"),("glyph data appended to, never written in place","sfnt_merge.go Merge")],None,None,HOOK)
p("C04","Bytes handed to the package are never modified",
 "No operation of the package writes to a byte slice it was given: detecting the type, converting from WOFF, WOFF2 or EOT, parsing, querying, subsetting, merging, renaming and writing all leave the input bytes, and the memory behind them beyond their length, exactly as they were, whether the operation succeeds or fails. Converting or parsing the same bytes again therefore gives the same result.",
 ["inputs","histories"],"every container format (encrypted, compressed or plain), every damaged version of it, and every history of operations on fonts parsed from it",
 "Tests hand every buffer to one call only, so a buffer that is damaged on the way is never noticed.",
 ["eot.go","woff.go","woff2.go","sfnt.go","sfnt_merge.go","font.go"],
 [("tables are views of the input with their capacity cut","sfnt.go parseSFNT"),("in-place edits only on copies","sfnt_merge.go, sfnt_subset.go")],None,None,HOOK)
p("C05","Saving and reloading at any point of an edit history loses nothing",
 "At any point of any history of subsetting, merging and naming glyphs, writing the font and parsing the result gives a font that answers every query exactly like the one in memory: glyph count, metrics, advances, outlines, bounds, character lookups in both directions, glyph names in both directions and kerning. In particular a font that could be produced can always be parsed again.",
 ["histories","inputs"],"every history of subset, merge and rename operations over generated and real fonts with a save-and-reload inserted at an arbitrary point, under any clock",
 "The tests write fonts after at most one operation and compare a few table bytes; the in-memory font and its file are built by separate code and are never compared after a history.",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cff.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_os2.go"],
 [("each edit updates both the table bytes and the parsed form","sfnt_subset.go, sfnt_merge.go"),("file writer","sfnt.go Write")],None,None,HOOK)
p("C06","A font survives the trip through WOFF2",
 "Writing a font as WOFF2 and reading that back gives a font that answers every query exactly like the original, at any point of any edit history. Writing never fails or panics for a font that can be written as a plain font.",
 ["histories","inputs"],"every history of edits followed by a WOFF2 export and reload, over generated fonts with composite glyphs, instructions, empty glyphs, overlap flags, unusual side bearings and every metrics layout, and the real fonts",
 "The tests re-encode two fixed fonts and compare sizes or a few tables.",
 ["woff2.go","sfnt.go"],
 [("glyf transform and its inverse","woff2.go WriteWOFF2, parseGlyfTransformed"),("hmtx transform","woff2.go parseHmtxTransformed")],None,None,HOOK)
p("C07","Output bytes depend only on the font, the edits and the clock",
 "The same sequence of operations on the same input gives byte-identical files every time, whatever order hash tables are walked in and whatever else ran before. The clock only decides the modification time stamped in a written file and the checksums that depend on it, for every clock value from 1970 on, including jumps backwards between two operations.",
 ["histories","configurations","inputs"],"every history of edits, run under differently ordered hash tables, different clocks (jumping forwards and backwards) and different unrelated earlier operations",
 "Tests run once per process under one clock and one random iteration order and never compare two outputs.",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cmap.go","sfnt_cff.go","woff2.go","system.go"],
 [("sorted table tags and runes","sfnt.go Write, sfnt_cmap.go cmapWrite"),("modification time from the clock","sfnt.go Write")],None,None,HOOK)
p("C08","Every font file written is structurally valid",
 "Whatever edit history led to it and whatever the clock says, a written font file has a sorted, in-bounds, non-overlapping, aligned table directory with correct checksums and a correct whole-file checksum adjustment, and its tables agree with each other on the number of glyphs, the number of metrics and the location format. Every glyph's data lies within its table in ascending order and composite glyphs refer only to glyphs that exist.",
 ["histories","inputs","configurations"],"every history of subset, merge and rename operations over generated and real fonts, every table selection, every clock",
 "The tests check checksums of a single output or none; the agreement between tables is built by hand in several places and only breaks for particular counts, paddings and format switches.",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","font.go"],
 [("directory and checksum writer","sfnt.go Write"),("location table rebuild","sfnt_subset.go, sfnt_merge.go"),("metrics count compression","sfnt_subset.go, sfnt_merge.go")],None,None,HOOK)
p("C09","Damaged font data gives an error or an answer, never a crash or a hang",
 "Whatever damage storage or transport does to font bytes (flipped bits, overwritten words, truncation, lost, duplicated or swapped blocks), in plain, WOFF, WOFF2, EOT, collection, embedded or AFM form, reading them returns an error or a font, in time bounded by the size of the data. If it returns a font, every query, subset, merge, rename and write on that font also returns, with an answer or an error.",
 ["inputs","fault_sequences","histories"],"every sequence of storage faults applied to any readable font, located anywhere including the fields the parser trusts, followed by every query and edit",
 "The tests parse a handful of corpus files; no test queries or edits a font that was parsed from damaged bytes.",
 ["sfnt.go","sfnt_truetype.go","sfnt_cff.go","sfnt_cmap.go","sfnt_os2.go","woff.go","woff2.go","eot.go","afm.go","font.go","sfnt_subset.go","sfnt_merge.go"],
 [("bounds checks before every table access","all parse functions"),("errors instead of panics","ErrInvalidFontData returns")],None,None,HOOK)
p("C10","Damage to a compressed font is never passed off as the font",
 "If the table data stored in a WOFF file is changed so that it no longer decodes to data of the recorded checksum and length, or if a font file in any container (WOFF, WOFF2, EOT, collection or plain) is cut short, or a WOFF or WOFF2 file loses a part, then reading it (conversion followed by parsing) reports an error, or gives exactly the tables of the undamaged font. It never gives a silently different or shortened font. An undamaged file in any of these containers is always accepted and gives exactly the tables that were put in, except for the checksum of the whole file and the flag by which WOFF2 marks converted fonts.",
 ["fault_sequences","inputs"],"every single-block storage fault in the table data of a WOFF file and every truncation point of every container format",
 "The tests feed a few invalid corpus files and check only that they are rejected.",
 ["woff.go","woff2.go","eot.go","font.go","sfnt.go"],
 [("per-table checksum and length verification","woff.go ParseWOFF"),("declared length against actual length","woff.go, woff2.go, eot.go")],None,None,HOOK)
p("C11","How a stream delivers a font does not matter, and its failure is reported",
 "Reading a font from a stream gives the same result however the stream delivers its bytes: in any chunk sizes, with empty reads in between, with the end signalled together with the last data or separately. If the stream fails at any point with an error, the reader returns an error that wraps or equals it, and never a font built from the part that arrived.",
 ["fault_sequences","inputs"],"every chunking of every container format and every position and kind of stream failure",
 "No test passes a stream other than one in-memory buffer.",
 ["font.go"],
 [("whole stream is read before conversion","font.go NewSFNTReader")],None,None,"none: the stream is an interface argument")
p("C12","Decompression stays within the configured memory limit",
 "Converting a compressed font never produces or buffers more decompressed data than the configured limit allows, whatever sizes the file declares and however far its data would really expand; a font that needs more is refused with an error. A font whose decompressed size is within the limit is not refused for its size.",
 ["inputs","configurations","fault_sequences"],"every WOFF and WOFF2 file whose declared sizes are altered or whose streams expand further than declared, under limits from a few hundred bytes to the default",
 "The tests never change the limit and contain no file that expands past what it declares.",
 ["woff.go","woff2.go","util.go"],
 [("declared total checked against the limit","woff.go, woff2.go"),("decompressed length checked against the declared one","woff.go, woff2.go")],
 [("MaxMemory","limit in bytes","util.go")],None,"none in /repo: the limit is an exported variable; the simulator meters allocation")
p("C13","A saved font index is loaded back exactly or refused",
 "If saving the system font index reports success then, after any restart of the process, loading it returns exactly the index that was saved. If saving reports an error, or the process dies at any instant during it, a later load returns either an error or an index that was once saved completely, and never anything else; a load that hits a read error reports it.",
 ["crash_points","fault_sequences","histories"],"every crash point, full disk, short or torn write, read or open error and close error, in every sequence of save and load operations on one file",
 "The tests never save or load an index.",
 ["system.go"],
 [("whole index encoded into one file","system.go Save, LoadSystemFonts")],
 [("index file","the only durable state","system.go Save")],None,"none in /repo: the os package is replaced by the simulated disk at build time")
p("C14","A font search survives a faulty file system and finds what is readable",
 "Searching directories for fonts never panics or hangs, whatever the file system does. It returns exactly the readable fonts with the family and style they declare; a file that cannot be read or is not a font, a directory that cannot be listed and a missing directory take away nothing but themselves, and short reads lose nothing.",
 ["fault_sequences","inputs","configurations"],"every directory tree with fonts, other files, links, pipes, unreadable and vanishing entries, and every sequence of I/O errors and short reads during the walk",
 "The tests never search a directory; CI machines have healthy file systems.",
 ["system.go"],
 [("directory walk that skips what it cannot use","system.go FindSystemFonts"),("partial parse of the name and OS/2 tables","system.go getMetadata")],None,None,"none in /repo: os and path/filepath are replaced by the simulated disk at build time")
p("C15","Looking up system fonts concurrently never disturbs the index",
 "Any number of goroutines may look fonts up in one system font index, print it and save it at the same time: every lookup returns what it returns to a lone caller, whatever lookups came before or run alongside, the index and its table of generic names are unchanged afterwards, and no two calls race on memory. The answer to a lookup depends only on the index, the name and the style.",
 ["schedules","histories","configurations"],"every interleaving of 2-5 goroutines issuing lookups, string conversions and saves, over generated indexes and generic-name tables (including tables whose lists have spare capacity) and every hash-table order",
 "No test looks up a font at all.",
 ["system.go"],
 [("read-only lookup","system.go Match"),("sorted keys before printing","system.go String")],
 [("Generics, Fonts","the shared index","system.go SystemFonts")],None,HOOK)
p("C16","The command line tool's exit status tells the truth about its outputs",
 "Subset, merge, CSS, drawing and information commands exit with status zero only if every output they were asked for is completely in place, holding the font, style sheet, image or listing asked for; when an input cannot be read, a font cannot be processed, overwriting is declined, or an output cannot be created, written or closed, they exit with a non-zero status and a message. When nothing is wrong with the arguments, the inputs and the disk, they succeed. They never crash or hang, whatever their arguments and whichever I/O operation fails.",
 ["fault_sequences","crash_points","inputs"],"every command with every container format and option, and every I/O error, short write, full disk or close error at every operation",
 "The command line tool has no test of its commands.",
 ["cmd/fontcmd/subset.go","cmd/fontcmd/merge.go","cmd/fontcmd/css.go","cmd/fontcmd/draw.go","cmd/fontcmd/info.go","cmd/fontcmd/util.go","cmd/fontcmd/main.go"],
 [("errors returned from every command","cmd/fontcmd Run methods")],None,None,"none in /repo: os, fmt, argp and prompt are replaced by the simulated process at build time")
p("C17","The command line tool touches only the files it was asked to write",
 "A command changes no file but its outputs. An existing output of the subset, merge and CSS commands is overwritten only after the user agreed or asked for it with the force option (the append option keeps all that was in it), and not before the inputs were read and processed successfully; if a command fails before it starts writing, every file is as it was.",
 ["fault_sequences","histories","configurations"],"every command, option, container format, answer to the overwrite question, pre-existing output, output equal to an input, and every I/O error at every operation",
 "The command line tool has no test of its commands.",
 ["cmd/fontcmd/subset.go","cmd/fontcmd/merge.go","cmd/fontcmd/css.go","cmd/fontcmd/util.go"],
 [("overwrite question","cmd/fontcmd/util.go"),("outputs are created after processing","cmd/fontcmd/subset.go, merge.go")],None,None,"none in /repo: os, fmt, argp and prompt are replaced by the simulated process at build time")
p("C18","Every file the package opens is closed again",
 "When a call that uses the file system returns, with success or with an error, whatever I/O errors it met, every file it opened has been closed. A program can therefore search, save and load any number of times under a limit on open files.",
 ["fault_sequences","histories"],"every sequence of search, save and load calls under every sequence of I/O errors, and under a limit on open files lower than the number of files visited",
 "No test calls these functions, and a leaked descriptor is invisible to a test that ends.",
 ["system.go"],
 [("deferred closes","system.go")],None,None,"none in /repo: the os package is replaced by the simulated disk at build time")
p("C19","Glyphs keep their identity through any history of subsets and merges",
 "Follow any glyph other than .notdef through any sequence of subsets and merges: at its new position it has the outline, bounds, advance, left side bearing, characters, CFF glyph name and kerning with its companions that it had in the font it came from. A subset lists the requested glyphs first in the requested order and then only glyphs they depend on; a merge lists the first font's glyphs and then the second's without .notdef.",
 ["histories","inputs"],"every sequence of subset and merge operations (including subsets of merges, merges of subsets, repeated and reordered glyphs, composite glyphs whose parts are or are not requested) over generated fonts of known content and the real fonts",
 "The tests subset and merge once with one fixed list and compare table sizes or a single glyph.",
 ["sfnt_subset.go","sfnt_merge.go","sfnt_cff.go","sfnt_cmap.go","sfnt_truetype.go"],
 [("glyph renumbering","sfnt_subset.go glyphMap, sfnt_merge.go composite fix-up"),("subroutine renumbering","sfnt_cff.go ReindexSubrs, updateSubrs"),("character map rebuild","sfnt_cmap.go cmapWrite")],None,None,HOOK)
p("C20","An edit that fails leaves the font as it was",
 "When a subset, merge, rename or export of a font returns an error, the fonts involved answer every query and write the same bytes as if the call had never been made, and later valid operations behave as if it had not happened.",
 ["histories","fault_sequences","inputs"],"every history in which some edits fail (conflicting characters, too many glyphs, missing tables, over-long names, incompatible kinds of font, damaged glyph data) at any point",
 "The tests call operations that succeed, and look at nothing but the error when one fails.",
 ["sfnt_merge.go","sfnt_subset.go","sfnt.go"],
 [("checks before changes","sfnt_merge.go Merge, sfnt_subset.go SetGlyphNames")],None,None,HOOK)
p("C21","Glyph names assigned to a font are the names it answers with",
 "After glyph names are assigned to a font, in any number of rounds interleaved with lookups, merges and saves, each glyph answers with the name last assigned to it, a name assigned to exactly one glyph finds that glyph, a name assigned to no glyph finds none, and the written file says the same. Changing the list of names after the call has no effect on the font.",
 ["histories","inputs"],"every sequence of name assignments (complete, partial, repeated, standard and custom names), lookups in either direction, merges and save-and-reloads",
 "One test assigns names once, in a fresh font, through the command line helper; no test looks a name up before and after.",
 ["sfnt_subset.go","sfnt.go","sfnt_cff.go","sfnt_merge.go"],
 [("name table rebuild","sfnt_subset.go SetGlyphNames"),("name index cache","sfnt.go postTable.Find")],
 [("name index cache","glyph name to glyph, built on first use","sfnt.go postTable")],None,HOOK)

# --- properties that are pure functions of their input: stated, not claimed
pure="The answer is a pure function of one input: there is no schedule, clock, fault, shared state or history it could depend on, so seeded simulation would only be input generation under another name."
na={}
def q(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech)
    na[id]=reason
q("N01","Outlines are drawn as the font formats prescribe",
 "Drawing a glyph produces the contours the TrueType and CFF specifications prescribe for its data: implied on-curve points, composite placement and scaling, every char string operator, subroutine bias and hint masks.",
 "every glyph program of every font","the tests draw a few glyphs of three fonts",["sfnt_truetype.go","sfnt_cff.go"],[("glyph interpreters","sfnt_truetype.go ToPath, sfnt_cff.go ToPath")],
 pure+" (That outlines survive edits, reloads, WOFF2 trips and concurrent drawing is claimed under C01, C05, C06 and C19.)")
q("N02","Character map formats are read as specified",
 "Looking up a character follows the character map subtable formats 0, 4, 6, 12 and 14 as specified, including segment deltas, range offsets and subtable precedence.",
 "every character map subtable","the tests look up a few characters",["sfnt_cmap.go"],[("format readers","sfnt_cmap.go Get methods")],
 pure+" (Stability of lookups over histories is claimed under C05 and C19.)")
q("N03","WOFF2 files from any conforming encoder decode as specified",
 "Every conforming WOFF2 file, including collections and every transform version and flag combination, decodes to a font equivalent to the one encoded.",
 "every conforming WOFF2 file","the tests decode a fixed corpus",["woff2.go"],[("inverse transforms","woff2.go")],
 pure+" No second encoder is available offline to act as an oracle; the package's own round trip is claimed under C06.")
q("N04","AFM files are read as specified",
 "Parsing an Adobe font metrics file yields every global metric, character metric, ligature and kerning pair it declares, and the queries answer accordingly.",
 "every AFM file","one file is parsed",["afm.go"],[("line parser","afm.go ParseAFM")],pure+" (Robustness against damaged AFM files is part of C09.)")
q("N05","Media types and extensions are detected from the content",
 "The detected media type and file extension of font bytes agree with the container format they are in, and unknown content is refused.",
 "every byte string","the tests cover one file per format",["font.go"],[("signature checks","font.go MediaType")],pure)
q("N06","Style names and CSS weights map to the right style",
 "Parsing a style name or CSS weight gives the weight and slant it denotes, printing a style and parsing it again gives it back, and the fallback order of weights follows the CSS font matching rules.",
 "every style string, weight and set of available styles","no test covers it",["system.go"],[("style parser and fallback order","system.go ParseStyle, Match")],pure+" (That lookups are independent of each other is claimed under C15.)")
q("N07","Vertical metrics and estimated font-wide values follow the recommendation",
 "Line metrics are chosen between the typographic, Windows and horizontal header values as OpenType recommends, and values missing from old metrics tables are estimated from the glyphs.",
 "every combination of metrics tables","the tests check a few values",["sfnt.go","sfnt_os2.go"],[("choice of metrics","sfnt.go VerticalMetrics"),("estimation","sfnt_os2.go estimateOS2")],pure)
q("N08","Layout tables are parsed into the lookups they declare",
 "Positioning and substitution tables are decoded into the scripts, features and lookups they declare.",
 "every GPOS and GSUB table","parsing of these tables is disabled in the reader, so no public operation reaches it",["sfnt_layout.go"],[("layout parser (disabled)","sfnt_layout.go")],
 "The parser for these tables is not called by any public operation of the package (the calls are commented out), so there is no running behaviour to simulate; it is also "+pure[0].lower()+pure[1:])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
json.dump(na,open("/verif/tools/na.json","w"),indent=1)
print(len(P),"properties",len(na),"not applicable")
assert all(len(x["title"])<=80 for x in P), [x["title"] for x in P if len(x["title"])>80]
