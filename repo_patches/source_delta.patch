From c5ed03f244a90484b393b845812a7b2d9575251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 01/60] fix: queries on fonts without post, OS/2, hhea, hmtx or
 head table panic

---
 sfnt.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..cede028 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -128,6 +130,8 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
@@ -137,6 +141,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return 0, 0, 0
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -146,6 +153,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	if 0 < sfnt.Hhea.LineGap {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
+	if sfnt.OS2 == nil { // not required by TrueType
+		return ascender, descender, lineGap
+	}
 
 	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
@@ -183,13 +193,16 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
-- 
2.43.0


From cd3ee0375aa1e2a5e33e97b6dfac72299db85b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:49 +0000
Subject: [PATCH 02/60] fix: Subset changes the OS/2 table of the original font
 and the slices of its caller

---
 sfnt_subset.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..e7cf7dc 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// copy so that adding dependencies or sorting tags won't write to the memory of the caller
+	glyphIDs = append(make([]uint16, 0, len(glyphIDs)), glyphIDs...)
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -94,7 +97,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...)
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
@@ -443,7 +446,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 8fd2ef67575b2816099a45d1d03a4398e5522f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 03/60] fix: Subset keeps the vertical metrics of the original
 glyphs

---
 sfnt_subset.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index e7cf7dc..d81ebd6 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -123,6 +123,21 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	//}
 
+	var verticalAdvances []uint16 // for vhea and vmtx
+	numberOfVMetrics := uint16(len(glyphIDs))
+	if sfnt.Vmtx != nil {
+		verticalAdvances = make([]uint16, len(glyphIDs))
+		for subsetGlyphID, glyphID := range glyphIDs {
+			verticalAdvances[subsetGlyphID] = sfnt.Vmtx.Advance(glyphID)
+		}
+		for 1 < numberOfVMetrics {
+			if verticalAdvances[numberOfVMetrics-1] != verticalAdvances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+	}
+
 	// copy to new SFNT
 	sfntOld := sfnt
 	sfnt = &SFNT{
@@ -477,6 +492,35 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["vhea"])))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+			sfnt.Vmtx.TopSideBearings = make([]int16, len(glyphIDs)-int(numberOfVMetrics))
+
+			n := 4*int(numberOfVMetrics) + 2*(len(glyphIDs)-int(numberOfVMetrics))
+			w := parse.NewBinaryWriter(make([]byte, 0, n))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				tsb := sfntOld.Vmtx.TopSideBearing(glyphID)
+				if subsetGlyphID < int(numberOfVMetrics) {
+					sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = verticalAdvances[subsetGlyphID]
+					sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = tsb
+					w.WriteUint16(verticalAdvances[subsetGlyphID])
+				} else {
+					sfnt.Vmtx.TopSideBearings[subsetGlyphID-int(numberOfVMetrics)] = tsb
+				}
+				w.WriteInt16(tsb)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 1ef2c4913bd009d0a8fb898662a1eeb5bf9db715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 04/60] fix: Subset accepts glyphs that don't exist or no
 glyphs at all

---
 sfnt_subset.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index d81ebd6..e1764e1 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	if len(glyphIDs) == 0 {
+		return nil, fmt.Errorf("subset must have at least one glyph")
+	}
+	for _, glyphID := range glyphIDs {
+		if sfnt.NumGlyphs() <= glyphID {
+			return nil, fmt.Errorf("bad glyphID %v", glyphID)
+		}
+	}
+
 	// copy so that adding dependencies or sorting tags won't write to the memory of the caller
 	glyphIDs = append(make([]uint16, 0, len(glyphIDs)), glyphIDs...)
 
@@ -49,7 +58,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				return nil, err
 			}
 			for _, glyphID := range deps[1:] {
-				if _, ok := glyphMap[glyphID]; !ok {
+				if sfnt.NumGlyphs() <= glyphID {
+					return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
+				} else if _, ok := glyphMap[glyphID]; !ok {
 					glyphMap[glyphID] = uint16(len(glyphIDs))
 					glyphIDs = append(glyphIDs, glyphID)
 				}
-- 
2.43.0


From 5840559da546bbe1ded18607f8d8f9d2e3297292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 05/60] fix: CFF INDEX is written wrongly for more than 65 kB
 of data and for empty data

---
 sfnt_cff.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..3192702 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1263,7 +1263,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1272,9 +1272,9 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if len(t.offset) < 2 {
 		return []byte{0, 0}, nil // zero count
-	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
+	} else if t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
 	}
 
@@ -1294,7 +1294,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From c63011a4dcd838413c49826416fe8ba530fc7dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 06/60] fix: CFF string identifiers of repeated strings refer
 to standard strings

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3192702..2ae5725 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1185,7 +1185,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From df6d716e234cb04e147f476241a4196c8c314510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 07/60] fix: CFF DICT drops ForceBold, precision, and fractions
 of some operators

---
 sfnt_cff.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 2ae5725..f92a815 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1670,7 +1670,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
@@ -1854,7 +1854,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 32) // reals are read as 32 bits
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
@@ -1886,7 +1886,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From 7eeb07f029ebb19cb104fe98c1d11a56221eb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 08/60] fix: CFF offsets are wrong when they or their size
 cross an encoding boundary

---
 sfnt_cff.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f92a815..cb84526 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2226,8 +2226,10 @@ func (cff *cffTable) Write() ([]byte, error) {
 			}
 
 			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			localSubrsOffset = len(privateDICT) + 1 // key
+			for localSubrsOffset != len(privateDICT)+1+cffDICTIntegerSize(localSubrsOffset) {
+				localSubrsOffset = len(privateDICT) + 1 + cffDICTIntegerSize(localSubrsOffset) // val
+			}
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			writeDICTEntry(wPrivate, 19, localSubrsOffset)
 			privateDICT = wPrivate.Bytes()
@@ -2245,7 +2247,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2274,13 +2276,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 2b3db0767e0c50797e5b27ed46ee7827a38610ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 09/60] fix: panic on subsetting or merging CID-keyed fonts
 without local subroutines

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index cb84526..c5f9ecd 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2053,6 +2053,8 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			}
 		} else if isCFF2 {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
+		} else {
+			fonts.localSubrs[i] = &cffINDEX{}
 		}
 	}
 
-- 
2.43.0


From 1c6e6db57126d7ba47246381174dc251bb2b9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:54 +0000
Subject: [PATCH 10/60] fix: glyph lookup and subroutine calls of subset CFF
 fonts

---
 sfnt_cff.go    |  2 +-
 sfnt_subset.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c5f9ecd..962790c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -916,7 +916,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					}
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
+				if skipDepth == 0 && mapped && oldIndex-oldBias != newIndex-newBias {
 					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
 					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
 
diff --git a/sfnt_subset.go b/sfnt_subset.go
index e1764e1..a64f0e4 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -216,8 +216,18 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				for i, glyphID := range glyphIDs {
 					charset[i] = cff.charset[glyphID]
 				}
+				charset[0] = ".notdef" // is not written
 				cff.charset = charset
 			}
+			if len(cff.fonts.private) == 1 {
+				// the glyphs have moved
+				cff.fonts = &cffFontINDEX{
+					private:    cff.fonts.private,
+					localSubrs: cff.fonts.localSubrs,
+					first:      []uint32{0, uint32(len(glyphIDs))},
+					fd:         []uint16{0},
+				}
+			}
 
 			// trim globalSubrs and localSubrs INDEX
 			if err := cff.ReindexSubrs(); err != nil {
-- 
2.43.0


From f67204ac2dd16d60e54b2f17cc59cb1c348d4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 11/60] fix: subroutine calls, glyph lookup and charset of
 merged CFF fonts, failed merge changes the font

---
 sfnt_cff.go   |   5 +-
 sfnt_merge.go | 145 +++++++++++++++++++++++++++++++++-----------------
 2 files changed, 98 insertions(+), 52 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 962790c..4fa24dc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1196,8 +1196,9 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		c := o.Copy()
+		t.offset = c.offset
+		t.data = c.data
 		return
 	}
 
diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..27333c1 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -20,8 +20,69 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return fmt.Errorf("too many glyphs for one font")
 	} else if sfnt2.NumGlyphs() < 2 {
 		return nil // sfnt2 only contains .notdef
+	} else if sfnt.NumGlyphs() == 0 {
+		return fmt.Errorf("font has no glyphs")
 	}
 
+	// merge into a copy so that the font remains untouched on failure
+	merged := sfnt.copyForMerge()
+	if err := merged.merge(sfnt2, options); err != nil {
+		return err
+	}
+	*sfnt = *merged
+	return nil
+}
+
+// copyForMerge copies everything that merge writes to.
+func (sfnt *SFNT) copyForMerge() *SFNT {
+	c := *sfnt
+	c.Tables = make(map[string][]byte, len(sfnt.Tables))
+	for tag, table := range sfnt.Tables {
+		if tag == "head" || tag == "hhea" || tag == "vhea" || tag == "OS/2" {
+			table = append([]byte{}, table...)
+		}
+		c.Tables[tag] = table
+	}
+	if sfnt.Maxp != nil {
+		maxp := *sfnt.Maxp
+		c.Maxp = &maxp
+	}
+	if sfnt.Head != nil {
+		head := *sfnt.Head
+		c.Head = &head
+	}
+	if sfnt.Hhea != nil {
+		hhea := *sfnt.Hhea
+		c.Hhea = &hhea
+	}
+	if sfnt.Vhea != nil {
+		vhea := *sfnt.Vhea
+		c.Vhea = &vhea
+	}
+	if sfnt.OS2 != nil {
+		os2 := *sfnt.OS2
+		c.OS2 = &os2
+	}
+	if sfnt.Loca != nil {
+		loca := *sfnt.Loca
+		c.Loca = &loca
+	}
+	if sfnt.Glyf != nil {
+		c.Glyf = &glyfTable{data: sfnt.Glyf.data, loca: c.Loca}
+	}
+	if sfnt.Kern != nil {
+		c.Kern = &kernTable{Subtables: append([]kernFormat0{}, sfnt.Kern.Subtables...)}
+	}
+	if sfnt.CFF != nil {
+		cff := *sfnt.CFF
+		cff.charStrings = cff.charStrings.Copy()
+		cff.charset = append([]string(nil), cff.charset...)
+		c.CFF = &cff
+	}
+	return &c
+}
+
+func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
@@ -156,62 +217,45 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
+		if 1 < len(sfnt.CFF.fonts.private) || 1 < len(sfnt2.CFF.fonts.private) {
+			return fmt.Errorf("only single-font CFFs are supported")
+		}
+
+		// copy all subroutines, the second font's subroutines come after those of the first
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
-		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
+		if 0 < len(sfnt.CFF.fonts.localSubrs) {
+			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy()
 		}
-		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
+		if 0 < len(sfnt2.CFF.fonts.localSubrs) {
 			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
 		}
-		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
+		if sfnt.CFF.globalSubrs != nil {
+			globalSubrs = sfnt.CFF.globalSubrs.Copy()
 		}
-		if 0 < sfnt2.CFF.globalSubrs.Len() {
+		if sfnt2.CFF.globalSubrs != nil {
 			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
 		}
 
-		// update index encoding (identity mapping) for the original glyphs
-		var localSubrsMap map[int32]int32  // old to new index
-		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
-				localSubrsMap[int32(i)] = int32(i)
-			}
+		// map from old to new index, the first font's subroutines keep their index but the bias may change
+		localSubrsMap, localSubrsMap2 := map[int32]int32{}, map[int32]int32{}
+		for i := 0; i < localSubrs.Len(); i++ {
+			localSubrsMap[int32(i)] = int32(i)
 		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
-				globalSubrsMap[int32(i)] = int32(i)
-			}
+		for i := 0; i < localSubrs2.Len(); i++ {
+			localSubrsMap2[int32(i)] = int32(localSubrs.Len() + i)
 		}
-		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
-			return err
+		globalSubrsMap, globalSubrsMap2 := map[int32]int32{}, map[int32]int32{}
+		for i := 0; i < globalSubrs.Len(); i++ {
+			globalSubrsMap[int32(i)] = int32(i)
 		}
-
-		// update indices and index encoding for the merging glyphs
-		var localSubrsMap2 map[int32]int32  // old to new index
-		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
-			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
-			for i := 0; i < localSubrs2.Len(); i++ {
-				localSubrsMap2[int32(i)] = int32(offset + i)
-			}
+		for i := 0; i < globalSubrs2.Len(); i++ {
+			globalSubrsMap2[int32(i)] = int32(globalSubrs.Len() + i)
 		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
-			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
-			for i := 0; i < globalSubrs2.Len(); i++ {
-				globalSubrsMap2[int32(i)] = int32(offset + i)
-			}
+		localSubrs.Extend(localSubrs2)
+		globalSubrs.Extend(globalSubrs2)
+		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
+			return err
 		}
 
 		// copy to keep original untouched
@@ -231,8 +275,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 
 		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
 		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
 			return err
 		}
@@ -240,15 +282,18 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// merge charStrings
 		sfnt.CFF.charStrings.Extend(cff2.charStrings)
 		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		sfnt.CFF.fonts = &cffFontINDEX{
+			private:    sfnt.CFF.fonts.private,
+			localSubrs: []*cffINDEX{localSubrs},
+			first:      []uint32{0, uint32(numGlyphs)},
+			fd:         []uint16{0},
+		}
 
 		// update charset
 		if sfnt2.CFF.charset != nil {
 			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
-					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
-				}
+				sfnt.CFF.charset = make([]string, origNumGlyphs)
+				sfnt.CFF.charset[0] = ".notdef"
 			}
 			sfnt.CFF.charset = append(sfnt.CFF.charset, sfnt2.CFF.charset[1:]...)
 		} else if sfnt.CFF.charset != nil {
-- 
2.43.0


From 36f95dd1a6978c389512309337fe8db908bc78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 12/60] fix: merging TrueType fonts with odd or trailing glyph
 data, and loca and kern tables of merged fonts

---
 sfnt_merge.go | 131 +++++++++++++++++++++++++++++---------------------
 1 file changed, 77 insertions(+), 54 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 27333c1..08e4d9a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -110,15 +110,23 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
 		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
+		// remove data that doesn't belong to a glyph and skip .notdef
+		lastGlyf, ok1 := sfnt.Loca.Get(origNumGlyphs)
+		firstGlyf, ok2 := sfnt2.Loca.Get(1)
+		lastGlyf2, ok3 := sfnt2.Loca.Get(sfnt2.NumGlyphs())
+		if !ok1 || !ok2 || !ok3 || uint32(len(glyf)) < lastGlyf || uint32(len(glyf2)) < lastGlyf2 || lastGlyf2 < firstGlyf {
+			return fmt.Errorf("bad glyf or loca tables")
+		} else if math.MaxUint32-lastGlyf < lastGlyf2-firstGlyf {
+			return fmt.Errorf("glyf table too large")
+		}
+		glyf = glyf[:lastGlyf:lastGlyf]
+		glyf2 = glyf2[firstGlyf:lastGlyf2]
 
 		// update glyphIDs of composite glyphs and make sure not to write to glyf2
 		startGlyf := uint32(len(glyf))
@@ -127,13 +135,23 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			// +1 to skip .notdef
 			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
 				start, _ := sfnt2.Loca.Get(uint16(glyphID))
+				end, ok := sfnt2.Loca.Get(uint16(glyphID + 1))
+				if start < firstGlyf || !ok || lastGlyf2 < end {
+					return fmt.Errorf("bad glyf or loca tables")
+				}
 				start += startGlyf - firstGlyf
+				end += startGlyf - firstGlyf
 
 				offset := uint32(10)
 				for {
+					if end < start || end-start < offset+4 {
+						return fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+					}
 					flags := binary.BigEndian.Uint16(glyf[start+offset:])
 					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+					if subGlyphID != 0 { // .notdef is shared
+						binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+					}
 
 					length, more := glyfCompositeLength(flags)
 					if !more {
@@ -147,37 +165,36 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Glyf.data = glyf
 
 		if _, ok := sfnt.Tables["loca"]; ok {
+			// offsets of all glyphs and the end of the last glyph
+			even := true
+			offsets := make([]uint32, int(numGlyphs)+1)
+			for glyphID := range offsets {
+				var ok bool
+				if glyphID < int(origNumGlyphs) {
+					offsets[glyphID], ok = sfnt.Loca.Get(uint16(glyphID))
+				} else {
+					// +1 to skip .notdef
+					offsets[glyphID], ok = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs)))
+					offsets[glyphID] += startGlyf - firstGlyf
+				}
+				if !ok {
+					return fmt.Errorf("bad loca table")
+				} else if offsets[glyphID]%2 == 1 {
+					even = false
+				}
+			}
+
 			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
+			if even && len(glyf) <= math.MaxUint16 {
 				indexToLocFormat = 0 // short format
 			}
-			n := 2 * (numGlyphs + 1)
-			if indexToLocFormat == 1 {
-				n *= 2
-			}
-
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
+			if table, ok := sfnt.Tables["head"]; ok {
 				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
 				sfnt.Head.IndexToLocFormat = indexToLocFormat
 			}
 
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
-				}
-
+			w := parse.NewBinaryWriter(make([]byte, 0, 4*len(offsets)))
+			for _, offset := range offsets {
 				if indexToLocFormat == 0 {
 					// short format
 					w.WriteUint16(uint16(offset / 2))
@@ -191,31 +208,6 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Loca.Format = indexToLocFormat
 			sfnt.Loca.data = w.Bytes()
 		}
-
-		if _, ok := sfnt.Tables["kern"]; ok {
-			// update glyph IDs in kern table
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
-						continue
-					}
-					pairs[i] = kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
-					}
-				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
-			}
-			if 0 < len(sfnt.Kern.Subtables) {
-				sfnt.Tables["kern"] = sfnt.Kern.Write()
-			}
-		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
 		if 1 < len(sfnt.CFF.fonts.private) || 1 < len(sfnt2.CFF.fonts.private) {
 			return fmt.Errorf("only single-font CFFs are supported")
@@ -310,6 +302,37 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
+	if sfnt2.Kern != nil && 0 < len(sfnt2.Kern.Subtables) {
+		// update glyph IDs in kern table
+		if sfnt.Kern == nil {
+			sfnt.Kern = &kernTable{}
+		}
+		for _, subtable := range sfnt2.Kern.Subtables {
+			offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				left, right := uint16(pair.Key>>16), uint16(pair.Key)
+				if left == 0 || right == 0 || sfnt2.NumGlyphs() <= left || sfnt2.NumGlyphs() <= right {
+					// skip .notdef and non-existing glyphs
+					continue
+				}
+				pairs = append(pairs, kernPair{
+					Key:   offset + pair.Key,
+					Value: pair.Value,
+				})
+			}
+			if 0 < len(pairs) {
+				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
+					Coverage: subtable.Coverage,
+					Pairs:    pairs,
+				})
+			}
+		}
+		if 0 < len(sfnt.Kern.Subtables) {
+			sfnt.Tables["kern"] = sfnt.Kern.Write()
+		}
+	}
+
 	if _, ok := sfnt.Tables["hmtx"]; ok {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
-- 
2.43.0


From 7a16e5e5d4abaa0a065c9f83e553fa23f7147fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 13/60] fix: SetGlyphNames and Merge corrupt glyph names, the
 italic angle and cached lookups

---
 sfnt.go        |  11 ++---
 sfnt_merge.go  | 128 +++++++++++++++++++++++++++++++++++--------------
 sfnt_subset.go |  78 +++++++++++++++++++-----------
 3 files changed, 148 insertions(+), 69 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index cede028..37b33ac 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1113,16 +1113,15 @@ func (sfnt *SFNT) parsePost() error {
 
 		// get string data first
 		sfnt.Post.stringData = [][]byte{}
-		for 2 <= r.Len() {
+		for 0 < r.Len() {
 			length := r.ReadUint8()
-			if r.Len() < int64(length) || 63 < length {
+			if r.Len() == 0 && length != 0 {
+				break // ignore last byte
+			} else if r.Len() < int64(length) || 63 < length {
 				return fmt.Errorf("post: bad stringData")
 			}
 			sfnt.Post.stringData = append(sfnt.Post.stringData, r.ReadBytes(int64(length)))
 		}
-		if 1 < r.Len() {
-			return fmt.Errorf("post: bad stringData")
-		}
 		return nil
 	} else if version == 0x00025000 && sfnt.IsTrueType && len(b) == 32 {
 		return fmt.Errorf("post: version 2.5 not supported")
@@ -1141,7 +1140,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
diff --git a/sfnt_merge.go b/sfnt_merge.go
index 08e4d9a..0da3deb 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -334,6 +334,9 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	}
 
 	if _, ok := sfnt.Tables["hmtx"]; ok {
+		if sfnt2.Hmtx == nil {
+			return fmt.Errorf("hmtx: missing table")
+		}
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
 		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
@@ -376,6 +379,51 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
+	if _, ok := sfnt.Tables["vmtx"]; ok {
+		tsbs := make([]int16, numGlyphs)
+		advances := make([]uint16, numGlyphs)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				tsbs[glyphID] = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+				advances[glyphID] = sfnt.Vmtx.Advance(uint16(glyphID))
+			} else {
+				// +1 to skip .notdef
+				if sfnt2.Vmtx != nil {
+					tsbs[glyphID] = sfnt2.Vmtx.TopSideBearing(uint16(1+glyphID) - origNumGlyphs)
+				}
+				advances[glyphID] = sfnt2.GlyphVerticalAdvance(uint16(1+glyphID) - origNumGlyphs)
+			}
+		}
+		numberOfVMetrics := numGlyphs
+		for 1 < numberOfVMetrics {
+			if advances[numberOfVMetrics-1] != advances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+
+		sfnt.Vmtx = &vmtxTable{}
+		sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+		sfnt.Vmtx.TopSideBearings = tsbs[numberOfVMetrics:]
+
+		n := 4*int(numberOfVMetrics) + 2*(int(numGlyphs)-int(numberOfVMetrics))
+		w := parse.NewBinaryWriter(make([]byte, 0, n))
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(numberOfVMetrics) {
+				sfnt.Vmtx.VMetrics[glyphID].AdvanceHeight = advances[glyphID]
+				sfnt.Vmtx.VMetrics[glyphID].TopSideBearing = tsbs[glyphID]
+				w.WriteUint16(advances[glyphID])
+			}
+			w.WriteInt16(tsbs[glyphID])
+		}
+		sfnt.Tables["vmtx"] = w.Bytes()
+
+		if table, ok := sfnt.Tables["vhea"]; ok {
+			binary.BigEndian.PutUint16(table[34:], numberOfVMetrics) // numberOfVMetrics
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		}
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
@@ -388,15 +436,21 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 				runeMap[r] = uint16(glyphID)
 			}
 		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
-				var rsGlyph []rune
-				if glyphID < int(origNumGlyphs) {
-					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-				} else {
-					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+			// skip .notdef, characters that map to it are missing from the font
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
+				cmap, cmapGlyphID := sfnt.Cmap, uint16(glyphID)
+				if int(origNumGlyphs) <= glyphID {
+					cmap, cmapGlyphID = sfnt2.Cmap, uint16(1+glyphID)-origNumGlyphs // +1 to skip .notdef
 				}
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
+				if cmap == nil {
+					continue
+				}
+				for _, r := range cmap.ToUnicode(cmapGlyphID) {
+					if cmap.Get(r) != cmapGlyphID {
+						// another subtable takes precedence for this character
+						continue
+					}
+					rs = append(rs, r)
 					if otherGlyphID, ok := runeMap[r]; ok {
 						glyphName, otherGlyphName := "", ""
 						if glyphID < int(origNumGlyphs) {
@@ -422,7 +476,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt2.OS2 != nil {
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
@@ -433,40 +487,42 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
-		}
-		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
-				index = uint16(len(sfnt.Post.stringData) + 258)
-				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
-			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
+	if _, ok := sfnt.Tables["post"]; ok && sfnt2.Post != nil {
+		// copy to keep the original table and its cached names untouched
+		post := &postTable{
+			ItalicAngle:        sfnt.Post.ItalicAngle,
+			UnderlinePosition:  sfnt.Post.UnderlinePosition,
+			UnderlineThickness: sfnt.Post.UnderlineThickness,
+			IsFixedPitch:       sfnt.Post.IsFixedPitch,
+			MinMemType42:       sfnt.Post.MinMemType42 + sfnt2.Post.MinMemType42,
+			MaxMemType42:       sfnt.Post.MaxMemType42 + sfnt2.Post.MaxMemType42,
+			MinMemType1:        sfnt.Post.MinMemType1 + sfnt2.Post.MinMemType1,
+			MaxMemType1:        sfnt.Post.MaxMemType1 + sfnt2.Post.MaxMemType1,
 		}
-
 		if sfnt2.Post.IsFixedPitch == 0 {
-			sfnt.Post.IsFixedPitch = 0
+			post.IsFixedPitch = 0
+		}
+
+		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(sfnt2.Post.glyphNameIndex) {
+			names := make([]string, 0, numGlyphs)
+			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+				if glyphID < int(origNumGlyphs) {
+					names = append(names, sfnt.Post.Get(uint16(glyphID)))
+				} else {
+					// +1 to skip .notdef
+					names = append(names, sfnt2.Post.Get(uint16(1+glyphID)-origNumGlyphs))
+				}
+			}
+			if err := post.setNames(names); err != nil {
+				return fmt.Errorf("invalid post table: %v", err)
+			}
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
-		sfnt.Post.NumGlyphs = numGlyphs
 
-		b, err := sfnt.Post.Write()
+		b, err := post.Write()
 		if err != nil {
 			return fmt.Errorf("invalid post table: %v", err)
 		}
+		sfnt.Post = post
 		sfnt.Tables["post"] = b
 	}
 	return nil
diff --git a/sfnt_subset.go b/sfnt_subset.go
index a64f0e4..97736dc 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -552,8 +552,12 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	return sfnt, nil
 }
 
+// SetGlyphNames sets the names of the glyphs in order of their glyph ID. TrueType fonts with fewer names than glyphs will have empty names for the remaining glyphs, any excess of names is ignored. CFF fonts must have a name for each glyph.
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF table doesn't exist")
+		}
 		same := false
 		if len(sfnt.CFF.charset) == len(names) {
 			same = true
@@ -568,48 +572,68 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
-		b, err := sfnt.CFF.Write()
+		cff := *sfnt.CFF
+		cff.charset = append([]string{}, names...)
+		if 0 < len(cff.charset) {
+			cff.charset[0] = ".notdef" // is not written
+		}
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
 		return nil
 	}
 
-	if _, ok := sfnt.Tables["post"]; !ok {
+	if _, ok := sfnt.Tables["post"]; !ok || sfnt.Post == nil {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
-
-	lastIndex := uint16(258)
-	if int(sfnt.NumGlyphs()) < len(names) {
-		names = names[:sfnt.NumGlyphs()]
+	post := &postTable{
+		ItalicAngle:        sfnt.Post.ItalicAngle,
+		UnderlinePosition:  sfnt.Post.UnderlinePosition,
+		UnderlineThickness: sfnt.Post.UnderlineThickness,
+		IsFixedPitch:       sfnt.Post.IsFixedPitch,
+		MinMemType42:       sfnt.Post.MinMemType42,
+		MaxMemType42:       sfnt.Post.MaxMemType42,
+		MinMemType1:        sfnt.Post.MinMemType1,
+		MaxMemType1:        sfnt.Post.MaxMemType1,
 	}
-	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
-		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+	glyphNames := make([]string, sfnt.NumGlyphs())
+	copy(glyphNames, names)
+	if err := post.setNames(glyphNames); err != nil {
+		return err
 	}
-
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
-
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
+
+// setNames sets the name of each glyph for a new table.
+func (post *postTable) setNames(names []string) error {
+	indices := make(map[string]uint16, 258+len(names))
+	for i, name := range macintoshGlyphNames {
+		indices[name] = uint16(i)
+	}
+	post.NumGlyphs = uint16(len(names))
+	post.glyphNameIndex = make([]uint16, len(names))
+	post.stringData = [][]byte{}
+	for glyphID, name := range names {
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16-258 < len(post.stringData) {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(258 + len(post.stringData))
+			indices[name] = index
+			post.stringData = append(post.stringData, []byte(name))
+		}
+		post.glyphNameIndex[glyphID] = index
+	}
+	return nil
+}
-- 
2.43.0


From 27d60910d86c14fcb94f1eef82ed20f99a572261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 14/60] fix: minimum kerning applies to pairs that are not in
 the kern subtable

---
 sfnt_subset.go   |  2 +-
 sfnt_truetype.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 97736dc..bd896bd 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -428,7 +428,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						if rOrig == 0 {
 							continue
 						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+						if value, ok := subtable.get(lOrig, rOrig); ok && (value != 0 || subtable.Coverage[1]) {
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..a5fb424 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -516,6 +516,11 @@ type kernFormat0 struct {
 }
 
 func (subtable *kernFormat0) Get(l, r uint16) int16 {
+	value, _ := subtable.get(l, r)
+	return value
+}
+
+func (subtable *kernFormat0) get(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -526,10 +531,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -540,7 +545,7 @@ func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
 		if !subtable.Coverage[1] { // kerning values
 			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
+		} else if min, ok := subtable.get(l, r); ok && k < min { // minimum values (usually last subtable)
 			k = min // TODO: test minimal kerning
 		}
 	}
-- 
2.43.0


From 2cd346d24227b24b174cc3a4efc35d76f4dba131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 15/60] fix: Subset maps characters to another glyph when cmap
 subtables differ

---
 sfnt_subset.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index bd896bd..5df1203 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -182,9 +182,12 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			rs := make([]rune, 0, len(glyphIDs))
 			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
 			for subsetGlyphID, glyphID := range glyphIDs {
-				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
+				for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
+					if sfntOld.Cmap.Get(r) != glyphID {
+						// another subtable takes precedence for this character
+						continue
+					}
+					rs = append(rs, r)
 					runeMap[r] = uint16(subsetGlyphID)
 				}
 			}
-- 
2.43.0


From cbab097121a48ec978b8b703541bb31f8a9f8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 16/60] fix: cmap subtables are written wrongly for U+FFFF,
 glyphs equal to their character, repeated characters, and large tables

---
 sfnt_cmap.go | 78 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..d2bd20f 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -176,11 +176,16 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 }
 
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
-	// rs is sorted
+	// rs is sorted, 0xFFFF is reserved for the last segment
+	if 0 < len(rs) && rs[len(rs)-1] == 0xFFFF {
+		rs = rs[:len(rs)-1]
+	}
 	data := cmapFormat4{}
+	isDelta := []bool{} // segment uses idDelta instead of idRangeOffset
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		isDelta = append(isDelta, contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -202,11 +207,12 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 	}
 
 	i0 := 0
-	glyphIDs := []uint16{runeMap[rs[0]]}
+	glyphIDs := []uint16{}
+	if 0 < len(rs) {
+		glyphIDs = append(glyphIDs, runeMap[rs[0]])
+	}
 	for i := 1; i <= len(rs); i++ {
-		if i < len(rs) && rs[i] == rs[i-1] {
-			continue
-		} else if i == len(rs) || rs[i-1]+1 != rs[i] {
+		if i == len(rs) || rs[i-1]+1 != rs[i] {
 			// Find subsets of glyphIDs that are contiguous for at least 9 glyphs in a row.
 			// Track index before which is already written as segment (j0) and track index
 			// before which glyph indices are not contiguous (jc). Write a new segments whenever we
@@ -238,9 +244,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		}
 		glyphIDs = append(glyphIDs, runeMap[rs[i]])
 	}
-	if rs[len(rs)-1] != 0xFFFF {
-		addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
-	}
+	addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
 
 	start := w.Len()
 	w.WriteUint16(4) // format
@@ -266,7 +270,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if isDelta[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
@@ -277,7 +281,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
+	// the caller must check that the length fits the 16 bits of the length field
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
 }
 
@@ -296,9 +300,7 @@ func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16
 	for i := 1; i < len(rs); i++ {
 		r := rs[i]
 		subsetGlyphID := runeMap[r]
-		if r == rs[i-1] {
-			continue
-		} else if uint32(r) == startCharCode+n && uint32(subsetGlyphID) == startGlyphID+n {
+		if uint32(r) == startCharCode+n && uint32(subsetGlyphID) == startGlyphID+n {
 			n++
 		} else {
 			w.WriteUint32(uint32(startCharCode))         // startCharCode
@@ -324,35 +326,43 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 	}
 
 	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
+	j := 1
+	for i := 1; i < len(rs); i++ {
+		if rs[i] != rs[i-1] {
+			rs[j] = rs[i]
+			j++
+		}
+	}
+	rs = rs[:j]
 
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
 	w.WriteUint16(0) // version
 	w.WriteUint16(2) // numTables, we specify 2 encodings for the same subtable
 
-	var maxRune rune
-	for _, r := range rs {
-		if maxRune < r {
-			maxRune = r
+	// format 4 can only map 0xFFFF to .notdef and has a maximum length
+	maxRune := rs[len(rs)-1]
+	if maxRune < 0xFFFF || maxRune == 0xFFFF && runeMap[0xFFFF] == 0 {
+		subtable := parse.NewBinaryWriter([]byte{})
+		cmapWriteFormat4(subtable, rs, runeMap)
+		if subtable.Len() <= math.MaxUint16 {
+			w.WriteUint16(0)  // platformID
+			w.WriteUint16(3)  // encodingID
+			w.WriteUint32(20) // subtableOffset
+			w.WriteUint16(3)  // platformID
+			w.WriteUint16(1)  // encodingID
+			w.WriteUint32(20) // subtableOffset
+			w.WriteBytes(subtable.Bytes())
+			return w.Bytes()
 		}
 	}
-	if maxRune <= 0xffff {
-		w.WriteUint16(0)  // platformID
-		w.WriteUint16(3)  // encodingID
-		w.WriteUint32(20) // subtableOffset
-		w.WriteUint16(3)  // platformID
-		w.WriteUint16(1)  // encodingID
-		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
-	} else {
-		w.WriteUint16(0)  // platformID
-		w.WriteUint16(4)  // encodingID
-		w.WriteUint32(20) // subtableOffset
-		w.WriteUint16(3)  // platformID
-		w.WriteUint16(10) // encodingID
-		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat12(w, rs, runeMap)
-	}
+	w.WriteUint16(0)  // platformID
+	w.WriteUint16(4)  // encodingID
+	w.WriteUint32(20) // subtableOffset
+	w.WriteUint16(3)  // platformID
+	w.WriteUint16(10) // encodingID
+	w.WriteUint32(20) // subtableOffset
+	cmapWriteFormat12(w, rs, runeMap)
 	return w.Bytes()
 }
 
-- 
2.43.0


From 6f7b5a71afc059dbdf53b40e3e569c2c3e0b9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 17/60] fix: head table dates are wrong after the year 2196,
 writing a font without head table corrupts its header

---
 sfnt.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 37b33ac..bb65759 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -479,6 +479,9 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 	return sfnt, nil
 }
 
+// sfntEpoch is January 1st 1904 UTC as Unix time, times in the head table are in seconds since
+const sfntEpoch = -2082844800
+
 // Write writes out the SFNT file.
 func (sfnt *SFNT) Write() []byte {
 	tags := make([]string, 0, len(sfnt.Tables))
@@ -516,7 +519,7 @@ func (sfnt *SFNT) Write() []byte {
 			w.WriteBytes(table[:8])
 			w.WriteUint32(0)
 			w.WriteBytes(table[12:28])
-			w.WriteInt64(int64(time.Now().UTC().Sub(time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)) / 1e9)) // modified
+			w.WriteInt64(time.Now().Unix() - sfntEpoch) // modified
 			w.WriteBytes(table[36:])
 		} else {
 			w.WriteBytes(table)
@@ -540,7 +543,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
@@ -586,8 +591,8 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	sfnt.Head.Created = time.Unix(int64(created)+sfntEpoch, 0).UTC()
+	sfnt.Head.Modified = time.Unix(int64(modified)+sfntEpoch, 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From 838625317bf7766e4519fb08d22de9d38235320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 18/60] fix: embedded CFF fonts are never parsed

---
 sfnt.go        | 23 +++++++++++++----------
 sfnt_subset.go |  6 ++++--
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index bb65759..49f8e10 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -411,20 +411,23 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables
+	if _, ok := tables["head"]; ok { // optional for embedded CFF
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
+	if _, ok := tables["maxp"]; ok { // optional for embedded CFF
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else if err := sfnt.parseCFF(); err != nil {
 		return nil, err
+	} else {
+		sfnt.Maxp = &maxpTable{
+			Version:   0x00005000,
+			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
+		}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 5df1203..f19bb95 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -117,8 +117,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
-	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+	if sfnt.Hmtx != nil {                          // optional for embedded CFF
+		for subsetGlyphID, glyphID := range glyphIDs {
+			advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		}
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
-- 
2.43.0


From aef322871bbdc63e6301cbb96a04605fc62747c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 19/60] fix: valid fonts are rejected when a table is read up
 to its last byte, truncated numbers panic

---
 eot.go           |  4 +---
 sfnt.go          | 18 +++++++++---------
 sfnt_cff.go      | 12 ++++++------
 sfnt_cmap.go     |  6 +++---
 sfnt_layout.go   | 42 +++++++++++++++++++++---------------------
 sfnt_os2.go      |  4 +---
 sfnt_truetype.go |  6 +++---
 util.go          | 39 +++++++++++++++++++++++++++++++++++++++
 woff.go          |  2 +-
 woff2.go         | 34 +++++++++++++++++-----------------
 10 files changed, 101 insertions(+), 66 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..55925e2 100644
--- a/eot.go
+++ b/eot.go
@@ -4,13 +4,11 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
 	fontDataSize := r.ReadUint32() // FontDataSize
diff --git a/sfnt.go b/sfnt.go
index 49f8e10..a50f560 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -294,7 +294,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfntVersion := r.ReadString(4)
 	isCollection := sfntVersion == "ttcf"
 	if isCollection {
@@ -576,7 +576,7 @@ func (sfnt *SFNT) parseHead() error {
 	}
 
 	sfnt.Head = &headTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
@@ -641,7 +641,7 @@ func (sfnt *SFNT) parseHhea() error {
 	}
 
 	sfnt.Hhea = &hheaTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
@@ -699,7 +699,7 @@ func (sfnt *SFNT) parseVhea() error {
 	}
 
 	sfnt.Vhea = &vheaTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 && minorVersion != 1 {
@@ -774,7 +774,7 @@ func (sfnt *SFNT) parseHmtx() error {
 	sfnt.Hmtx.HMetrics = make([]hmtxLongHorMetric, sfnt.Hhea.NumberOfHMetrics)
 	sfnt.Hmtx.LeftSideBearings = make([]int16, sfnt.Maxp.NumGlyphs-sfnt.Hhea.NumberOfHMetrics)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	for i := 0; i < int(sfnt.Hhea.NumberOfHMetrics); i++ {
 		sfnt.Hmtx.HMetrics[i].AdvanceWidth = r.ReadUint16()
 		sfnt.Hmtx.HMetrics[i].LeftSideBearing = r.ReadInt16()
@@ -832,7 +832,7 @@ func (sfnt *SFNT) parseVmtx() error {
 	sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, sfnt.Vhea.NumberOfVMetrics)
 	sfnt.Vmtx.TopSideBearings = make([]int16, sfnt.Maxp.NumGlyphs-sfnt.Vhea.NumberOfVMetrics)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	for i := 0; i < int(sfnt.Vhea.NumberOfVMetrics); i++ {
 		sfnt.Vmtx.VMetrics[i].AdvanceHeight = r.ReadUint16()
 		sfnt.Vmtx.VMetrics[i].TopSideBearing = r.ReadInt16()
@@ -870,7 +870,7 @@ func (sfnt *SFNT) parseMaxp() error {
 	}
 
 	sfnt.Maxp = &maxpTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfnt.Maxp.Version = binary.BigEndian.Uint32(r.ReadBytes(4))
 	sfnt.Maxp.NumGlyphs = r.ReadUint16()
 	if sfnt.Maxp.Version == 0x00005000 && !sfnt.IsTrueType && len(b) == 6 {
@@ -978,7 +978,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 
 	sfnt.Name = &nameTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	version := r.ReadUint16()
 	if version != 0 && version != 1 {
 		return fmt.Errorf("name: bad version")
@@ -1089,7 +1089,7 @@ func (sfnt *SFNT) parsePost() error {
 	_, isCFF2 := sfnt.Tables["CFF2"]
 
 	sfnt.Post = &postTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	version := r.ReadUint32()
 	sfnt.Post.ItalicAngle = float64(r.ReadInt32()) / (1 << 16)
 	sfnt.Post.UnderlinePosition = r.ReadInt16()
diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4fa24dc..e668a0a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -33,7 +33,7 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 1 || minor != 0 {
@@ -210,7 +210,7 @@ func (sfnt *SFNT) parseCFF2() error {
 		return fmt.Errorf("CFF2: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 2 || minor != 0 {
@@ -409,7 +409,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	}
 
 	callStack := []*parse.BinaryReader{}
-	r := parse.NewBinaryReaderBytes(charString)
+	r := newBinaryReader(charString)
 
 	hints := 0
 	stack := []int32{}
@@ -510,7 +510,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				stack = stack[:len(stack)-1]
 
 				callStack = append(callStack, r)
-				r = parse.NewBinaryReaderBytes(subr)
+				r = newBinaryReader(subr)
 			case cffReturn:
 				if cff.version == 2 {
 					return fmt.Errorf("%v: unsupported operator %d", table, b0)
@@ -1733,7 +1733,7 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 		256 + 13: -1,
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	ints := []int{}
 	reals := []float64{}
 	for 0 < r.Len() {
@@ -2019,7 +2019,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		return nil, fmt.Errorf("bad Font INDEX offset")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.Seek(int64(fdArray), 0)
 	fontINDEX, err := parseINDEX(r, false)
 	if err != nil {
diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index d2bd20f..4c4159a 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -423,7 +423,7 @@ func (sfnt *SFNT) parseCmap() error {
 	}
 
 	sfnt.Cmap = &cmapTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.ReadUint16() != 0 {
 		return fmt.Errorf("cmap: bad version")
 	}
@@ -450,7 +450,7 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 
 		// extract subtable length
-		rs := parse.NewBinaryReaderBytes(b[offset:])
+		rs := newBinaryReader(b[offset:])
 		format := rs.ReadUint16()
 		var length uint32
 		if format == 0 || format == 2 || format == 4 || format == 6 {
@@ -474,7 +474,7 @@ func (sfnt *SFNT) parseCmap() error {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
 		}
-		rs = parse.NewBinaryReaderBytes(b[offset+uint32(rs.Pos()) : offset+length])
+		rs = newBinaryReader(b[offset+uint32(rs.Pos()) : offset+length])
 
 		if subtableID == -1 {
 			subtableID = len(sfnt.Cmap.Subtables)
diff --git a/sfnt_layout.go b/sfnt_layout.go
index da20dbf..79322ad 100644
--- a/sfnt_layout.go
+++ b/sfnt_layout.go
@@ -30,9 +30,9 @@ func (scriptList scriptList) getLangSys(scriptTag ScriptTag, languageTag Languag
 }
 
 func (sfnt *SFNT) parseScriptList(b []byte) (scriptList, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
-	r3 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
+	r3 := newBinaryReader(b)
 	scriptCount := r.ReadUint16()
 	scripts := make(scriptList, scriptCount)
 	for i := 0; i < int(scriptCount); i++ {
@@ -96,8 +96,8 @@ func (featureList featureList) get(i uint16) (FeatureTag, []uint16, error) {
 }
 
 func (sfnt *SFNT) parseFeatureList(b []byte) featureList {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	featureCount := r.ReadUint16()
 	tags := make([]FeatureTag, featureCount)
 	features := make([][]uint16, featureCount)
@@ -134,8 +134,8 @@ type lookup struct {
 type lookupList []lookup
 
 func (sfnt *SFNT) parseLookupList(b []byte) lookupList {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	lookupCount := r.ReadUint16()
 	lookups := make(lookupList, lookupCount)
 	for i := 0; i < int(lookupCount); i++ {
@@ -200,7 +200,7 @@ func (table *coverageFormat2) Index(glyphID uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseCoverageTable(b []byte) (coverageTable, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	coverageFormat := r.ReadUint16()
 	if coverageFormat == 1 {
 		glyphCount := r.ReadUint16()
@@ -268,7 +268,7 @@ func (table classDefFormat2) Get(glyphID uint16) uint16 {
 }
 
 func (sfnt *SFNT) parseClassDefTable(b []byte, classCount uint16) (classDefTable, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	classFormat := r.ReadUint16()
 	if classFormat == 1 {
 		startGlyphID := r.ReadUint16()
@@ -378,7 +378,7 @@ func (table *singlePosFormat2) Get(glyphID uint16) (ValueRecord, bool) {
 }
 
 func (sfnt *SFNT) parseSinglePosTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	posFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -470,8 +470,8 @@ func (table *pairPosFormat2) Get(glyphID1, glyphID2 uint16) (ValueRecord, ValueR
 }
 
 func (sfnt *SFNT) parsePairPosTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	posFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -563,7 +563,7 @@ func (table *singleSubstFormat2) Get(glyphID uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseSingleSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -606,8 +606,8 @@ func (table *multipleSubstFormat1) Get(glyphID uint16) ([]uint16, bool) {
 }
 
 func (sfnt *SFNT) parseMultipleSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad multiple substitution table format")
@@ -639,7 +639,7 @@ func (sfnt *SFNT) parseMultipleSubstTable(b []byte) (interface{}, error) {
 }
 
 func (sfnt *SFNT) parseAlternateSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad alternate substitution table format")
@@ -675,9 +675,9 @@ func (table *ligatureSubstFormat1) Get(glyphIDs []uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseLigatureSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
-	r3 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
+	r3 := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad ligature substitution table format")
@@ -796,7 +796,7 @@ func (sfnt *SFNT) parseGPOSGSUB(name string, subtableMap subtableMap) (*gposgsub
 	}
 
 	table := &gposgsubTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 && minorVersion != 1 {
@@ -875,7 +875,7 @@ func (sfnt *SFNT) parseJSFT() error {
 	}
 
 	sfnt.Jsft = &jsftTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..c6371a9 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -2,8 +2,6 @@ package font
 
 import (
 	"fmt"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 type os2Table struct {
@@ -65,7 +63,7 @@ func (sfnt *SFNT) parseOS2() error {
 		return fmt.Errorf("OS/2: bad table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfnt.OS2 = &os2Table{}
 	sfnt.OS2.Version = r.ReadUint16()
 	if 5 < sfnt.OS2.Version {
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index a5fb424..998c094 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -100,7 +100,7 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 	} else if len(b) == 0 {
 		return deps, nil
 	}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.Len() < 10 {
 		return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 	}
@@ -167,7 +167,7 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 	} else if len(b) == 0 {
 		return &glyfContour{GlyphID: glyphID}, nil
 	}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.Len() < 10 {
 		return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 	}
@@ -561,7 +561,7 @@ func (sfnt *SFNT) parseKern() error {
 		return fmt.Errorf("kern: bad table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	if majorVersion != 0 && majorVersion != 1 {
 		return fmt.Errorf("kern: bad version %d", majorVersion)
diff --git a/util.go b/util.go
index d728225..a9ea347 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,9 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
+
+	"github.com/tdewolff/parse/v2"
 )
 
 // MaxMemory is the maximum memory that can be allocated by a font.
@@ -55,3 +58,39 @@ func uint32ToString(v uint32) string {
 	binary.BigEndian.PutUint32(b, v)
 	return string(b)
 }
+
+// binaryData implements parse.IBinaryReader. Contrary to parse.NewBinaryReaderBytes, reading up to and including the last byte is not an error, and numbers that are only partially available are read as zero. After reading past the end no data remains, so that next reads fail as well and checking for errors can be postponed.
+type binaryData struct {
+	data []byte
+}
+
+func newBinaryReader(data []byte) *parse.BinaryReader {
+	return parse.NewBinaryReader(&binaryData{data: data})
+}
+
+// Close closes the reader.
+func (d *binaryData) Close() error {
+	return nil
+}
+
+// Len returns the length of the data.
+func (d *binaryData) Len() int64 {
+	return int64(len(d.data))
+}
+
+// Bytes returns n bytes at the given offset, or io.EOF if any of those is past the end.
+func (d *binaryData) Bytes(b []byte, n, off int64) ([]byte, error) {
+	if off < 0 || n < 0 || d.Len() < off || d.Len()-off < n {
+		if 0 <= off && off < d.Len() {
+			d.data = d.data[:off]
+		}
+		return nil, io.EOF
+	}
+
+	data := d.data[off : off+n : off+n]
+	if b == nil {
+		return data, nil
+	}
+	copy(b, data)
+	return b[:len(data)], nil
+}
diff --git a/woff.go b/woff.go
index 865f3a8..81d6db6 100644
--- a/woff.go
+++ b/woff.go
@@ -52,7 +52,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOFF" {
 		return nil, fmt.Errorf("bad signature")
diff --git a/woff2.go b/woff2.go
index 2bf4e17..0559a79 100644
--- a/woff2.go
+++ b/woff2.go
@@ -57,7 +57,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOF2" {
 		return nil, fmt.Errorf("bad signature")
@@ -209,7 +209,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
+			rGlyf := newBinaryReader(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
@@ -338,7 +338,7 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -355,14 +355,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
-	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
-	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
-	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
-	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
-	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
+	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
+	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
+	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
+	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
+	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
 	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
-	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
+	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
 		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
@@ -619,7 +619,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
-	rHead := parse.NewBinaryReaderBytes(head)
+	rHead := newBinaryReader(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
 	if rHead.Err() == io.EOF {
@@ -627,7 +627,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numGlyphs
-	rMaxp := parse.NewBinaryReaderBytes(maxp)
+	rMaxp := newBinaryReader(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
 	if rMaxp.Err() == io.EOF {
@@ -635,7 +635,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numHMetrics
-	rHhea := parse.NewBinaryReaderBytes(hhea)
+	rHhea := newBinaryReader(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
 	if rHhea.Err() == io.EOF {
@@ -654,9 +654,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	if locaLength != uint32(len(loca)) {
 		return nil, ErrInvalidFontData
 	}
-	rLoca := parse.NewBinaryReaderBytes(loca)
+	rLoca := newBinaryReader(loca)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	flags := r.ReadUint8() // flags
 	reconstructProportional := flags&0x01 != 0
 	reconstructMonospaced := flags&0x02 != 0
@@ -693,7 +693,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// extract xMin values from glyf table using loca indices
-	rGlyf := parse.NewBinaryReaderBytes(glyf)
+	rGlyf := newBinaryReader(glyf)
 	iGlyphMin := uint16(0)
 	iGlyphMax := numGlyphs
 	if !reconstructProportional {
@@ -1034,7 +1034,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			instructionStream.WriteBytes(contour.Instructions)
 		} else {
 			// composite glyph
-			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			r := newBinaryReader(glyf.Get(uint16(glyphID)))
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
-- 
2.43.0


From b992986180ebd99eb9042e6516486259f06080bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 20/60] fix: WOFF2 encoding of empty and composite glyphs, long
 distances, and multiples of 8 or 32 glyphs

---
 woff2.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/woff2.go b/woff2.go
index 0559a79..9437ef0 100644
--- a/woff2.go
+++ b/woff2.go
@@ -895,6 +895,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 
 func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte, []int16) {
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	overlapSimpleBitmapSize := (uint32(numGlyphs) + 7) >> 3
 	nContourStream := parse.NewBinaryWriter([]byte{})
 	nPointsStream := parse.NewBinaryWriter([]byte{})
 	flagStream := parse.NewBinaryWriter([]byte{})
@@ -903,7 +904,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	bboxBitmapStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
-	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, overlapSimpleBitmapSize))
 
 	var optionFlags uint16
 	xMins := make([]int16, numGlyphs)
@@ -921,6 +922,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				// empty glyph
 				nContourStream.WriteInt16(0)
 				bboxBitmapStream.Write(false)
+				overlapSimpleStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -938,11 +940,12 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 
 			// glyph, flag, and overlapSimple streams
 			for i := range contour.XCoordinates {
-				dx, dy := contour.XCoordinates[i], contour.YCoordinates[i]
+				x, y := contour.XCoordinates[i], contour.YCoordinates[i]
 				if 0 < i {
-					dx -= contour.XCoordinates[i-1]
-					dy -= contour.YCoordinates[i-1]
+					x -= contour.XCoordinates[i-1]
+					y -= contour.YCoordinates[i-1]
 				}
+				dx, dy := int(x), int(y) // negation doesn't overflow
 				dxSign, dySign := byte(1), byte(1)
 				if dx < 0 {
 					dxSign = 0
@@ -981,14 +984,8 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					glyphStream.WriteByte(byte(dy & 0x00FF))
 				} else {
 					flag = 124 + (dySign << 1) + dxSign
-					glyphStream.WriteInt16(dx)
-					glyphStream.WriteInt16(dy)
-				}
-				if dxSign == 0 {
-					dx = -dx
-				}
-				if dySign == 0 {
-					dy = -dy
+					glyphStream.WriteUint16(uint16(dx))
+					glyphStream.WriteUint16(uint16(dy))
 				}
 
 				if !contour.OnCurve[i] {
@@ -1040,6 +1037,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
@@ -1060,7 +1058,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
@@ -1075,12 +1073,16 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		overlapSimpleStream.Write(hasOverlap)
 	}
 
+	// the bitmap writer adds a byte after writing the last bit
+	bboxBitmap := bboxBitmapStream.Bytes()[:bitmapSize]
+	overlapSimpleBitmap := overlapSimpleStream.Bytes()[:overlapSimpleBitmapSize]
+
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(len(bboxBitmap)) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(len(overlapSimpleBitmap))
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1092,18 +1094,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(uint32(int64(len(bboxBitmap)) + bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From 32c6d3f0a8e84f7b737e94d526d17d91aaa60005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 21/60] fix: WOFF2 decoding overflows short loca tables and
 misreads overlap and bounding box bits

---
 util.go  |  5 ++++
 woff2.go | 75 +++++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/util.go b/util.go
index a9ea347..acb3739 100644
--- a/util.go
+++ b/util.go
@@ -94,3 +94,8 @@ func (d *binaryData) Bytes(b []byte, n, off int64) ([]byte, error) {
 	copy(b, data)
 	return b[:len(data)], nil
 }
+
+// newBitmapReader is like parse.NewBitmapReader, which does not read the last bit.
+func newBitmapReader(data []byte) *parse.BitmapReader {
+	return parse.NewBitmapReader(append(data[:len(data):len(data)], 0))
+}
diff --git a/woff2.go b/woff2.go
index 9437ef0..8db3741 100644
--- a/woff2.go
+++ b/woff2.go
@@ -360,12 +360,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	bboxBitmap := newBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize) - int64(bitmapSize)))
 	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmapSize := (uint32(numGlyphs) + 7) >> 3
+		overlapSimpleBitmap = newBitmapReader(r.ReadBytes(int64(overlapSimpleBitmapSize)))
 	}
 	if r.Err() == io.EOF {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
@@ -388,6 +389,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
@@ -417,14 +419,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				nPoints += nPoint
 				endPtsOfContours[iContour] = nPoints - 1
 			}
-			if nPointsStream.Err() == io.EOF {
+			if nPointsStream.Err() == io.EOF || nPoints == 0 {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
 			var x, y int16
 			outlineFlags := make([]byte, 0, nPoints)
-			xCoordinates := make([]int16, 0, nPoints)
-			yCoordinates := make([]int16, 0, nPoints)
+			xCoordinates := parse.NewBinaryWriter([]byte{})
+			yCoordinates := parse.NewBinaryWriter([]byte{})
 			for iPoint := uint16(0); iPoint < nPoints; iPoint++ {
 				flag := flagStream.ReadUint8()
 				onCurve := (flag & 0x80) == 0
@@ -462,17 +464,35 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					dx = signInt16(flag, 0) * (coord0<<8 + coord1)
 					dy = signInt16(flag, 1) * (coord2<<8 + coord3)
 				}
-				xCoordinates = append(xCoordinates, dx)
-				yCoordinates = append(yCoordinates, dy)
 
-				// keep bit 1-5 zero, that means x and y are two bytes long, this flag is not
-				// repeated, and all coordinates are in the coordinate array even if they are the
-				// same as the previous.
+				// write compactly so that the offsets fit in the loca table
 				var outlineFlag byte
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if dx == 0 {
+					outlineFlag |= 0x10 // X_IS_SAME_OR_POSITIVE_X_SHORT_VECTOR
+				} else if 0 < dx && dx < 256 {
+					outlineFlag |= 0x12 // and X_SHORT_VECTOR
+					xCoordinates.WriteUint8(uint8(dx))
+				} else if -256 < dx && dx < 0 {
+					outlineFlag |= 0x02 // X_SHORT_VECTOR
+					xCoordinates.WriteUint8(uint8(-dx))
+				} else {
+					xCoordinates.WriteInt16(dx)
+				}
+				if dy == 0 {
+					outlineFlag |= 0x20 // Y_IS_SAME_OR_POSITIVE_Y_SHORT_VECTOR
+				} else if 0 < dy && dy < 256 {
+					outlineFlag |= 0x24 // and Y_SHORT_VECTOR
+					yCoordinates.WriteUint8(uint8(dy))
+				} else if -256 < dy && dy < 0 {
+					outlineFlag |= 0x04 // Y_SHORT_VECTOR
+					yCoordinates.WriteUint8(uint8(-dy))
+				} else {
+					yCoordinates.WriteInt16(dy)
+				}
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
@@ -524,16 +544,22 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			w.WriteUint16(instructionLength)
 			w.WriteBytes(instructions)
 
-			// we could write this more compactly, but is that really necessary?
-			for _, outlineFlag := range outlineFlags {
-				w.WriteByte(outlineFlag) // flag
-			}
-			for _, xCoordinate := range xCoordinates {
-				w.WriteInt16(xCoordinate)
-			}
-			for _, yCoordinate := range yCoordinates {
-				w.WriteInt16(yCoordinate)
+			for i := 0; i < len(outlineFlags); {
+				repeats := 0
+				for repeats < 255 && i+repeats+1 < len(outlineFlags) && outlineFlags[i+repeats+1] == outlineFlags[i] {
+					repeats++
+				}
+				if 1 < repeats {
+					w.WriteByte(outlineFlags[i] | 0x08) // REPEAT_FLAG
+					w.WriteByte(byte(repeats))
+					i += repeats + 1
+				} else {
+					w.WriteByte(outlineFlags[i])
+					i++
+				}
 			}
+			w.WriteBytes(xCoordinates.Bytes())
+			w.WriteBytes(yCoordinates.Bytes())
 		} else { // composite glyph
 			if !explicitBbox {
 				return nil, nil, fmt.Errorf("glyf: composite glyph must have bbox definition")
@@ -602,10 +628,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 		}
 
-		// offsets for loca table should be 4-byte aligned
-		for w.Len()%4 != 0 {
+		// offsets for loca table must be 2-byte aligned for the short format, and should be 4-byte aligned otherwise
+		for w.Len()%2 != 0 || indexFormat != 0 && w.Len()%4 != 0 {
 			w.WriteByte(0x00)
 		}
+		if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
+			return nil, nil, fmt.Errorf("glyf: data too large for loca table")
+		}
 	}
 
 	// last entry in loca table
-- 
2.43.0


From fc322f0c65e72fa3ce43ee424432ba9a54431f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:32 +0000
Subject: [PATCH 22/60] fix: panics, hangs, and excessive memory usage on
 corrupt glyf and loca tables

---
 sfnt_truetype.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 998c094..ada19e4 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -72,7 +72,7 @@ type glyfTable struct {
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || glyphID == math.MaxUint16 || end < start || uint32(len(glyf.data)) < end {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -89,10 +89,20 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	components := 0
+	return glyf.dependencies(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+// addComponent counts the components of a composite glyph, which may grow exponentially with the nesting level
+func (glyf *glyfTable) addComponent(components *int) error {
+	*components++
+	if math.MaxUint16 < *components {
+		return fmt.Errorf("glyf: too many components in compound glyph")
+	}
+	return nil
+}
+
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -119,7 +129,10 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			if err := glyf.addComponent(components); err != nil {
+				return nil, err
+			}
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -157,10 +170,11 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	components := 0
+	return glyf.contour(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -187,6 +201,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] < contour.EndPoints[i-1] {
+				return nil, fmt.Errorf("glyf: bad end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
@@ -195,6 +212,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		}
 		contour.Instructions = r.ReadBytes(int64(instructionLength))
 
+		if numberOfContours == 0 {
+			return contour, nil
+		}
 		numPoints := int(contour.EndPoints[numberOfContours-1]) + 1
 		flags := make([]byte, numPoints)
 		contour.OnCurve = make([]bool, numPoints)
@@ -209,6 +229,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
 				repeats := r.ReadUint8()
+				if numPoints <= i+int(repeats) {
+					return nil, fmt.Errorf("glyf: bad flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
@@ -320,9 +343,14 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			if err := glyf.addComponent(components); err != nil {
+				return nil, err
+			}
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
+			} else if math.MaxUint16 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points in compound glyph")
 			}
 
 			var numPoints uint16
@@ -455,9 +483,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+1 < len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+3 < len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From 5790410944d33f58f15d7c31a84b0e8321cc2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 23/60] fix: kern subtables with many or no pairs are written
 wrongly, unsupported subtables are not skipped

---
 sfnt_truetype.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index ada19e4..3c7eeb3 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -615,15 +615,15 @@ func (sfnt *SFNT) parseKern() error {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
 		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
-			// TODO: supported other kern subtable versions
-			continue
-		}
 		length := r.ReadUint16()
 		format := r.ReadUint8()
 		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
-			// TODO: supported other kern subtable formats
+		if subtableVersion != 0 || format != 0 {
+			// TODO: supported other kern subtable versions and formats
+			if length < 6 || r.Len() < int64(length)-6 {
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(int64(length) - 6)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -637,8 +637,7 @@ func (sfnt *SFNT) parseKern() error {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
+				if length != uint16(14+pairsLength) || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
@@ -663,25 +662,41 @@ func (sfnt *SFNT) parseKern() error {
 		}
 
 		// read unread bytes if length is bigger
-		_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
+		if n := int64(length) - (r.Pos() - startPos); 0 < n {
+			_ = r.ReadBytes(n)
+		}
 		sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, subtable)
 	}
 	return nil
 }
 
 func (kern *kernTable) Write() []byte {
-	w := parse.NewBinaryWriter([]byte{})
-	w.WriteUint16(0)                           // version
-	w.WriteUint16(uint16(len(kern.Subtables))) // nTables
+	// the length of a subtable must fit in a uint16
+	const maxPairs = (math.MaxUint16 - 14) / 6
+	subtables := make([]kernFormat0, 0, len(kern.Subtables))
 	for _, subtable := range kern.Subtables {
+		for maxPairs < len(subtable.Pairs) {
+			subtables = append(subtables, kernFormat0{subtable.Coverage, subtable.Pairs[:maxPairs]})
+			subtable.Pairs = subtable.Pairs[maxPairs:]
+		}
+		subtables = append(subtables, subtable)
+	}
+
+	w := parse.NewBinaryWriter([]byte{})
+	w.WriteUint16(0)                      // version
+	w.WriteUint16(uint16(len(subtables))) // nTables
+	for _, subtable := range subtables {
 		w.WriteUint16(0)                                     // version
 		w.WriteUint16(6 + 8 + 6*uint16(len(subtable.Pairs))) // length
 		w.WriteUint8(0)                                      // format
 		w.WriteUint8(flagsToUint8(subtable.Coverage))        // coverage
 
 		nPairs := uint16(len(subtable.Pairs))
-		entrySelector := uint16(math.Log2(float64(nPairs)))
-		searchRange := uint16(1 << entrySelector * 6)
+		var entrySelector, searchRange uint16
+		if 0 < nPairs {
+			entrySelector = uint16(math.Log2(float64(nPairs)))
+			searchRange = uint16(1 << entrySelector * 6)
+		}
 		w.WriteUint16(nPairs)
 		w.WriteUint16(searchRange)
 		w.WriteUint16(entrySelector)
-- 
2.43.0


From 36518324406c7653e4d4490fd5e779733b96128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 24/60] fix: WOFF2 encoding of glyphs with a bounding box that
 differs from their points

---
 woff2.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/woff2.go b/woff2.go
index 8db3741..44b12f5 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1038,22 +1038,20 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					xMax = x
 				}
 			}
-			if xMin == contour.XMin && xMax == contour.XMax {
-				for _, y := range contour.YCoordinates[1:] {
-					if y < yMin {
-						yMin = y
-					}
-					if yMax < y {
-						yMax = y
-					}
+			for _, y := range contour.YCoordinates[1:] {
+				if y < yMin {
+					yMin = y
 				}
-				if yMin == contour.YMin && yMax == contour.YMax {
-					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
+				if yMax < y {
+					yMax = y
 				}
 			}
+			if xMin == contour.XMin && xMax == contour.XMax && yMin == contour.YMin && yMax == contour.YMax {
+				bboxEqual = true
+			} else {
+				xMin, xMax = contour.XMin, contour.XMax
+				yMin, yMax = contour.YMin, contour.YMax
+			}
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From 17664a386a408d582f5f393ea1912d7260eaa816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 25/60] fix: merging a font without post table drops it or
 corrupts the post table

---
 sfnt_merge.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 0da3deb..a247665 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -487,30 +487,35 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt2.Post != nil {
+	if _, ok := sfnt.Tables["post"]; ok {
+		post2 := sfnt2.Post
+		if post2 == nil {
+			post2 = &postTable{IsFixedPitch: sfnt.Post.IsFixedPitch}
+		}
+
 		// copy to keep the original table and its cached names untouched
 		post := &postTable{
 			ItalicAngle:        sfnt.Post.ItalicAngle,
 			UnderlinePosition:  sfnt.Post.UnderlinePosition,
 			UnderlineThickness: sfnt.Post.UnderlineThickness,
 			IsFixedPitch:       sfnt.Post.IsFixedPitch,
-			MinMemType42:       sfnt.Post.MinMemType42 + sfnt2.Post.MinMemType42,
-			MaxMemType42:       sfnt.Post.MaxMemType42 + sfnt2.Post.MaxMemType42,
-			MinMemType1:        sfnt.Post.MinMemType1 + sfnt2.Post.MinMemType1,
-			MaxMemType1:        sfnt.Post.MaxMemType1 + sfnt2.Post.MaxMemType1,
+			MinMemType42:       sfnt.Post.MinMemType42 + post2.MinMemType42,
+			MaxMemType42:       sfnt.Post.MaxMemType42 + post2.MaxMemType42,
+			MinMemType1:        sfnt.Post.MinMemType1 + post2.MinMemType1,
+			MaxMemType1:        sfnt.Post.MaxMemType1 + post2.MaxMemType1,
 		}
-		if sfnt2.Post.IsFixedPitch == 0 {
+		if post2.IsFixedPitch == 0 {
 			post.IsFixedPitch = 0
 		}
 
-		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(sfnt2.Post.glyphNameIndex) {
+		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(post2.glyphNameIndex) {
 			names := make([]string, 0, numGlyphs)
 			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 				if glyphID < int(origNumGlyphs) {
 					names = append(names, sfnt.Post.Get(uint16(glyphID)))
 				} else {
 					// +1 to skip .notdef
-					names = append(names, sfnt2.Post.Get(uint16(1+glyphID)-origNumGlyphs))
+					names = append(names, post2.Get(uint16(1+glyphID)-origNumGlyphs))
 				}
 			}
 			if err := post.setNames(names); err != nil {
-- 
2.43.0


From 0af92b4542254887a8f3d7e02d12c49ccc8bf184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 26/60] fix: characters after a long range of contiguous glyphs
 are written with another glyph

---
 sfnt_cmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 4c4159a..b4b7e29 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -222,8 +222,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 			j0, jc := 0, 0
 			for j := 1; j <= len(glyphIDs); j++ {
 				if j == len(glyphIDs) || glyphIDs[j-1]+1 != glyphIDs[j] && 8 < j-jc {
-					if 8 < j-jc && j0 != jc {
-						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+					if 8 < j-jc {
+						if j0 != jc {
+							addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+						}
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
 						j0, jc = j, j
 					} else if j == len(glyphIDs) {
-- 
2.43.0


From ca9de7271b5ba47a033a9d550b405c233435a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 27/60] fix: name of .notdef for CFF fonts with a single glyph

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e668a0a..d1af2ca 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -110,6 +110,8 @@ func (sfnt *SFNT) parseCFF() error {
 		}
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
+	} else if charStringsINDEX.Len() == 1 {
+		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
 		if r.Len() == 0 {
-- 
2.43.0


From 0fe670b5d07ef387b10cf2a09a26183131e33747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:21 +0000
Subject: [PATCH 28/60] fix: CFF glyphs with vertical stems before a cntrmask
 cannot be read

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index d1af2ca..195c6ee 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -484,7 +484,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From 8c68b0e36b77cde473954ead6e3d8e98d019bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 29/60] fix: subsetting CFF fonts with subroutine numbers that
 are not in their shortest encoding

---
 sfnt_cff.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 195c6ee..1004f3c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -849,6 +849,29 @@ func cffNumberSize(i int) int {
 	return 5
 }
 
+// cffTrailingNumberSize returns the size in bytes of the encoding of number i at the end of a charstring. Numbers need not be in their shortest encoding. It returns zero if the charstring does not end in the given number.
+func cffTrailingNumberSize(b []byte, i int) int {
+	n := len(b)
+	switch size := cffNumberSize(i); size {
+	case 1:
+		if 1 <= n && int(b[n-1])-139 == i {
+			return 1
+		}
+	case 2:
+		if 2 <= n && 247 <= b[n-2] && b[n-2] <= 250 && (int(b[n-2])-247)*256+int(b[n-1])+108 == i {
+			return 2
+		} else if 2 <= n && 251 <= b[n-2] && b[n-2] <= 254 && -(int(b[n-2])-251)*256-int(b[n-1])-108 == i {
+			return 2
+		}
+	}
+	if 3 <= n && b[n-3] == 28 && int(int16(uint16(b[n-2])<<8|uint16(b[n-1]))) == i {
+		return 3
+	} else if 5 <= n && b[n-5] == 255 && int(int16(uint16(b[n-4])<<8|uint16(b[n-3]))) == i {
+		return 5
+	}
+	return 0
+}
+
 type cffSubrIndexChange struct {
 	start, end uint32
 	index      int32
@@ -919,14 +942,16 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 				}
 
 				if skipDepth == 0 && mapped && oldIndex-oldBias != newIndex-newBias {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
-
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
+					end := offset + uint32(r.Pos()) - 1 // -1 as we're past the operator
+					lenNumber := cffTrailingNumberSize(index.data[offset:end], int(oldIndex-oldBias))
+					if lenNumber == 0 {
+						return fmt.Errorf("unsupported operand for operator %d", b0)
+					}
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
-						start: offset + posNumber,
-						end:   offset + posNumber + lenNumber,
+						start: end - uint32(lenNumber),
+						end:   end,
 						index: newIndex - newBias,
 					})
 				}
-- 
2.43.0


From 205a3b348fb04f4e6b93bdb6bd8b242f8ac2249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 30/60] fix: files of the system fonts index are never closed,
 close errors are ignored

---
 system.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e329acf..ed1ed6d 100644
--- a/system.go
+++ b/system.go
@@ -294,6 +294,8 @@ func LoadSystemFonts(filename string) (*SystemFonts, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
+
 	fonts := &SystemFonts{}
 	if err = gob.NewDecoder(f).Decode(fonts); err != nil {
 		return nil, err
@@ -307,9 +309,10 @@ func (s *SystemFonts) Save(filename string) error {
 		return err
 	}
 	if err = gob.NewEncoder(f).Encode(s); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
-- 
2.43.0


From ca916d0397ecf3620254a6a4abfb4c626af944ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:58 +0000
Subject: [PATCH 31/60] fix: matching a system font overwrites the lists of
 generic fonts

---
 system.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/system.go b/system.go
index ed1ed6d..fc274de 100644
--- a/system.go
+++ b/system.go
@@ -324,12 +324,13 @@ func (s *SystemFonts) Add(metadata FontMetadata) {
 
 func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	// expand generic font names
-	families := strings.Split(name, ",")
-	for i := 0; i < len(families); i++ {
-		families[i] = strings.TrimSpace(families[i])
-		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
-			i += len(names) - 1
+	var families []string
+	for _, family := range strings.Split(name, ",") {
+		family = strings.TrimSpace(family)
+		if names, ok := s.Generics[family]; ok {
+			families = append(families, names...)
+		} else {
+			families = append(families, family)
 		}
 	}
 
-- 
2.43.0


From 64f6eaabc2d0820a66aa5a900df8067a91ed8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 32/60] fix: searching system fonts panics or fails on
 directories that cannot be read and loses fonts on short reads

---
 system.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/system.go b/system.go
index fc274de..9feedce 100644
--- a/system.go
+++ b/system.go
@@ -437,7 +437,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 		return fs.WalkDir(os.DirFS(dir), ".", func(path string, d fs.DirEntry, err error) error {
 			path = filepath.Join(dir, path)
 			if err != nil {
-				return err
+				return nil // skip what cannot be read
 			} else if d.IsDir() {
 				if walkedDirs[path] {
 					return filepath.SkipDir
@@ -475,10 +475,8 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 
 	var Err error
 	for _, dir := range dirs {
-		if info, err := os.Stat(dir); os.IsNotExist(err) {
-			continue
-		} else if !info.IsDir() {
-			continue
+		if info, err := os.Stat(dir); err != nil || !info.IsDir() {
+			continue // skip what cannot be read
 		}
 
 		if err := walkDir(dir); err != nil && Err == nil {
@@ -494,10 +492,8 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 
 func read(r io.Reader, length int) ([]byte, error) {
 	b := make([]byte, length) // TODO: reuse
-	if n, err := r.Read(b); err != nil {
+	if _, err := io.ReadFull(r, b); err != nil {
 		return nil, err
-	} else if n != length {
-		return nil, fmt.Errorf("invalid length")
 	}
 	return b, nil
 }
-- 
2.43.0


From 67175f65e2a54f88d0406b56899708c228729cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 33/60] fix: system fonts with a name table of version 1 have
 no family and style

---
 system.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/system.go b/system.go
index 9feedce..e7f03a2 100644
--- a/system.go
+++ b/system.go
@@ -543,7 +543,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 	metadata := FontMetadata{}
 	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
+	if version <= 1 {
+		// version 1 has the same records, followed by language tags
 		records, err := read(r, 12*int(count))
 		if err != nil {
 			return FontMetadata{}, err
@@ -599,8 +600,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		metadata.Family = family
 		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	} else {
+		return FontMetadata{}, fmt.Errorf("unsupported name table version: %d", version)
 	}
 	return metadata, nil
 }
-- 
2.43.0


From 2e520f38118d072c069b43933b102f2c124d3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 34/60] fix: panics and hangs on corrupt cmap tables

---
 sfnt_cmap.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index b4b7e29..958070a 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"sort"
 	"sync"
+	"unicode"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -436,6 +437,7 @@ func (sfnt *SFNT) parseCmap() error {
 
 	// find and extract subtables and make sure they don't overlap each other
 	offsets, lengths := []uint32{0}, []uint32{4 + 8*uint32(numTables)}
+	subtableIDs := []int{-1} // index in Subtables for each offset
 	for j := 0; j < int(numTables); j++ {
 		platformID := r.ReadUint16()
 		encodingID := r.ReadUint16()
@@ -465,12 +467,14 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
+		known := false
 		for i := 0; i < len(offsets); i++ {
 			if offset == offsets[i] && length == lengths[i] {
-				subtableID = int(i)
+				subtableID = subtableIDs[i]
+				known = true
 				break
 			} else if offset <= offsets[i] && offsets[i] < offset+length {
 				return fmt.Errorf("cmap: bad subtable %d", j)
@@ -478,10 +482,13 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 		rs = newBinaryReader(b[offset+uint32(rs.Pos()) : offset+length])
 
-		if subtableID == -1 {
-			subtableID = len(sfnt.Cmap.Subtables)
+		if !known {
+			if format != 14 { // unsupported
+				subtableID = len(sfnt.Cmap.Subtables)
+			}
 			offsets = append(offsets, offset)
 			lengths = append(lengths, length)
+			subtableIDs = append(subtableIDs, subtableID)
 
 			switch format {
 			case 0:
@@ -560,8 +567,9 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						first := int(idRangeOffset/2) - (int(segCount) - i)
+						last := first + int(subtable.EndCode[i]-subtable.StartCode[i])
+						if first < 0 || glyphIdArrayLength <= last {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
@@ -616,7 +624,7 @@ func (sfnt *SFNT) parseCmap() error {
 					startCharCode := rs.ReadUint32()
 					endCharCode := rs.ReadUint32()
 					startGlyphID := rs.ReadUint32()
-					if endCharCode < startCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
+					if endCharCode < startCharCode || unicode.MaxRune < endCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
 						return fmt.Errorf("cmap: bad character code range in subtable %d", j)
 					} else if uint32(sfnt.Maxp.NumGlyphs) <= endCharCode-startCharCode || uint32(sfnt.Maxp.NumGlyphs)-(endCharCode-startCharCode) <= startGlyphID {
 						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
-- 
2.43.0


From 610ae21af60e7071d6c501fee30cecdac0f4efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 35/60] fix: panic on short maxp tables

---
 sfnt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index a50f560..886a83f 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -867,11 +867,13 @@ func (sfnt *SFNT) parseMaxp() error {
 	b, ok := sfnt.Tables["maxp"]
 	if !ok {
 		return fmt.Errorf("maxp: missing table")
+	} else if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
 	}
 
 	sfnt.Maxp = &maxpTable{}
 	r := newBinaryReader(b)
-	sfnt.Maxp.Version = binary.BigEndian.Uint32(r.ReadBytes(4))
+	sfnt.Maxp.Version = r.ReadUint32()
 	sfnt.Maxp.NumGlyphs = r.ReadUint16()
 	if sfnt.Maxp.Version == 0x00005000 && !sfnt.IsTrueType && len(b) == 6 {
 		return nil
-- 
2.43.0


From 3a2a0daf62886240a8bd490a6ec89c8b54ed5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 36/60] fix: panics on corrupt CFF INDEX data

---
 sfnt_cff.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1004f3c..7f402ad 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1279,9 +1279,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
-- 
2.43.0


From b5379fd34b6216d3dff115b31c2c8ec836e95395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 37/60] fix: panics and hangs on corrupt CFF tables

---
 sfnt_cff.go | 58 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 7f402ad..4d14c41 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,6 +96,9 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
+	if topDICT.CharStrings < 0 || len(b) < topDICT.CharStrings {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	r.Seek(int64(topDICT.CharStrings), 0)
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
@@ -113,10 +116,10 @@ func (sfnt *SFNT) parseCFF() error {
 	} else if charStringsINDEX.Len() == 1 {
 		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
-		r.Seek(int64(topDICT.Charset), 0)
-		if r.Len() == 0 {
+		if len(b) <= topDICT.Charset {
 			return fmt.Errorf("CFF: bad Charset")
 		}
+		r.Seek(int64(topDICT.Charset), 0)
 
 		numGlyphs := charStringsINDEX.Len()
 		charset = make([]string, numGlyphs)
@@ -168,7 +171,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || topDICT.PrivateLength < 0 || len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -178,7 +181,7 @@ func (sfnt *SFNT) parseCFF() error {
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -414,6 +417,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	r := newBinaryReader(charString)
 
 	hints := 0
+	calls := 0
 	stack := []int32{}
 	beforeMoveto := true
 	for {
@@ -445,7 +449,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					if b0 == cffHmoveto || b0 == cffVmoveto {
 						hasWidth = !hasWidth
 					}
-					if hasWidth {
+					if hasWidth && 0 < len(stack) {
 						stack = stack[1:]
 					}
 					if b0 == cffRmoveto || b0 == cffHmoveto || b0 == cffVmoveto {
@@ -499,7 +503,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				stack = stack[:0]
 			case cffCallsubr, cffCallgsubr:
 				// callsubr and callgsubr
-				if 10 < len(callStack) {
+				if calls++; 65535 < calls {
+					return fmt.Errorf("%v: too many subroutine calls", table)
+				} else if 10 < len(callStack) {
 					return fmt.Errorf("%v: too many nested subroutines", table)
 				} else if len(stack) == 0 {
 					return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
@@ -1182,7 +1188,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
@@ -1825,7 +1833,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1851,6 +1859,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		return 0, math.NaN()
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
@@ -2022,7 +2031,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2047,8 +2056,10 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
+	if fdArray < 0 || len(b) < fdArray {
 		return nil, fmt.Errorf("bad Font INDEX offset")
+	} else if fdSelect < 0 || len(b) <= fdSelect {
+		return nil, fmt.Errorf("bad FDSelect offset")
 	}
 
 	r := newBinaryReader(b)
@@ -2066,7 +2077,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || fontDICT.PrivateLength < 0 || len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
@@ -2076,7 +2087,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.private[i] = privateDICT
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -2094,12 +2105,21 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	r.Seek(int64(fdSelect), 0)
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad format 0")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
+			if len(fonts.private) <= int(fonts.fds[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
 		}
 	} else if format == 3 {
-		nRanges := r.ReadUint16()
+		nRanges := int64(r.ReadUint16())
+		if r.Len() < 3*nRanges+2 {
+			return nil, fmt.Errorf("FDSelect: bad format 3")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2108,7 +2128,10 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 		fonts.first[nRanges] = uint32(r.ReadUint16())
 	} else if isCFF2 && format == 4 {
-		nRanges := r.ReadUint32()
+		nRanges := int64(r.ReadUint32())
+		if r.Len() < 6*nRanges+4 {
+			return nil, fmt.Errorf("FDSelect: bad format 4")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2119,6 +2142,13 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
+	for i := range fonts.fd {
+		if i == 0 && fonts.first[i] != 0 || fonts.first[i+1] <= fonts.first[i] {
+			return nil, fmt.Errorf("FDSelect: bad range")
+		} else if len(fonts.private) <= int(fonts.fd[i]) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		}
+	}
 	return fonts, nil
 }
 
-- 
2.43.0


From 0d0eb18661bc03fd5c0cc47392aa7319069e9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 38/60] fix: Merge panics on CFF fonts without glyphs or with a
 different number of glyphs than maxp

---
 sfnt_cff.go   | 2 ++
 sfnt_merge.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4d14c41..8c48c94 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -103,6 +103,8 @@ func (sfnt *SFNT) parseCFF() error {
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return fmt.Errorf("CFF: CharStrings INDEX: %w", err)
+	} else if charStringsINDEX.Len() == 0 {
+		return fmt.Errorf("CFF: CharStrings INDEX: no glyphs")
 	}
 
 	var charset []string
diff --git a/sfnt_merge.go b/sfnt_merge.go
index a247665..b28614a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -211,6 +211,8 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
 		if 1 < len(sfnt.CFF.fonts.private) || 1 < len(sfnt2.CFF.fonts.private) {
 			return fmt.Errorf("only single-font CFFs are supported")
+		} else if sfnt.CFF.charStrings.Len() != int(origNumGlyphs) || sfnt2.CFF.charStrings.Len() != int(sfnt2.NumGlyphs()) {
+			return fmt.Errorf("bad CFF table: number of glyphs does not match maxp table")
 		}
 
 		// copy all subroutines, the second font's subroutines come after those of the first
-- 
2.43.0


From 4d8e91fafcda84f8149084c164ab424c417783bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 39/60] fix: ParseWOFF panics on tables with a length larger
 than the file

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 81d6db6..33e8c52 100644
--- a/woff.go
+++ b/woff.go
@@ -96,7 +96,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
-- 
2.43.0


From 52a80d30140890c685e9a528ad6223719e9f0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 40/60] fix: WOFF and WOFF2 decompress beyond the memory limit

---
 woff.go  | 3 ++-
 woff2.go | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 33e8c52..1851156 100644
--- a/woff.go
+++ b/woff.go
@@ -171,7 +171,8 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			// read at most one byte too many, the data may be much larger than declared
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			if err = r.Close(); err != nil {
diff --git a/woff2.go b/woff2.go
index 44b12f5..851d316 100644
--- a/woff2.go
+++ b/woff2.go
@@ -171,7 +171,8 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	// read at most one byte too many, the data may be much larger than declared
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
@@ -311,6 +312,10 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		w.WriteUint32(actualLength)
 		sfntOffset += uint32(len(tables[i].data))
 	}
+	if MaxMemory < sfntOffset {
+		// reconstructed tables can be larger than declared
+		return nil, ErrExceedsMemory
+	}
 
 	// write tables
 	var iCheckSumAdjustment uint32
@@ -634,6 +639,8 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		}
 		if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
 			return nil, nil, fmt.Errorf("glyf: data too large for loca table")
+		} else if int64(MaxMemory) < w.Len() {
+			return nil, nil, ErrExceedsMemory
 		}
 	}
 
-- 
2.43.0


From 50c7000566cda9cb0bd37eafb3aabd6e752a0c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 41/60] fix: ParseWOFF, ParseEOT, and FromGoFreetype write to
 the input data

---
 eot.go  | 2 ++
 font.go | 1 +
 woff.go | 5 +++++
 3 files changed, 8 insertions(+)

diff --git a/eot.go b/eot.go
index 55925e2..de5d750 100644
--- a/eot.go
+++ b/eot.go
@@ -71,6 +71,8 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
+		// don't write to the input
+		fontData = append([]byte{}, fontData...)
 		for i := 0; i < len(fontData); i++ {
 			fontData[i] ^= 0x50
 		}
diff --git a/font.go b/font.go
index 8d5bd1f..f0668a7 100644
--- a/font.go
+++ b/font.go
@@ -166,6 +166,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
+		tables[tag] = append(make([]byte, 0, length+padding), tables[tag]...) // don't write to the font's data
 		for j := 0; j < int(padding); j++ {
 			tables[tag] = append(tables[tag], 0x00)
 		}
diff --git a/woff.go b/woff.go
index 1851156..0a5dffa 100644
--- a/woff.go
+++ b/woff.go
@@ -198,6 +198,11 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustment = binary.BigEndian.Uint32(data[8:])
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
+			if table.length == table.origLength {
+				// don't write to the input
+				data = append([]byte{}, data...)
+			}
+
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
-- 
2.43.0


From 1e89b46a6fde435edb61d5353ca14e4e0fd930a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 42/60] fix: the last font of a collection is always refused

---
 sfnt.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 886a83f..902a2bb 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -314,13 +314,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 
 		_ = r.ReadBytes(int64(4 * index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-8 < offset {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 1718b52ebf7016cf19a3985ee19e812687e2baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 43/60] fix: fonts with an empty table at the end of the file
 are refused

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 902a2bb..d15ca98 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -342,7 +342,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		length := r.ReadUint32()
 
 		padding := (4 - length&3) & 3
-		if uint32(len(b)) <= offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
+		if uint32(len(b)) < offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From f2ffc4ff0b69227154669793039490b0c7c26c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:40 +0000
Subject: [PATCH 44/60] fix: WOFF2 fonts with untransformed glyf and loca
 tables are refused depending on the data of their first glyph

---
 woff2.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index 851d316..329b8f3 100644
--- a/woff2.go
+++ b/woff2.go
@@ -209,17 +209,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := newBinaryReader(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
-- 
2.43.0


From 08b4cfe5a921503d46f91d279b96c5091d2f1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 45/60] fix: ParseAFM panics or exhausts memory on a bad number
 of characters or kerning pairs

---
 afm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index e6dff80..fbfa936 100644
--- a/afm.go
+++ b/afm.go
@@ -134,6 +134,10 @@ type afmLigature struct {
 }
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
+	if n < 0 || math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: bad number of characters", *j)
+	}
+
 	var ligatures []afmLigature
 	afm.CharMetrics = make([]AFMCharMetrics, n)
 	afm.names = make(map[string]uint16, n)
@@ -268,7 +272,7 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
 	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+		afm.KernPairs = make(map[[2]uint16]int16)
 	}
 	for i := 0; i < n; i++ {
 		*j++
-- 
2.43.0


From 71af8665edfeb50705cf35f15dac86082f0864a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 46/60] fix: WOFF2 fonts written from a font with unused loca
 entries cannot be read

---
 woff2.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 329b8f3..ae5387e 100644
--- a/woff2.go
+++ b/woff2.go
@@ -862,7 +862,15 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 		if tagIndex == -1 {
 			w.WriteString(tag) // tag
 		}
-		writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		origLength := uint32(len(sfnt.Tables[tag]))
+		if glyf != nil && tag == "loca" {
+			// the table is reconstructed with exactly numGlyphs+1 entries
+			origLength = (uint32(sfnt.NumGlyphs()) + 1) * 2
+			if sfnt.Loca.Format != 0 {
+				origLength *= 2
+			}
+		}
+		writeUintBase128(w, origLength)
 		if glyf != nil && tag == "glyf" {
 			writeUintBase128(w, uint32(len(glyf)))
 		} else if glyf != nil && tag == "loca" {
-- 
2.43.0


From fa04c60fa2c19ac610fcbe08ae27a5c5dad79b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:27 +0000
Subject: [PATCH 47/60] fix: fontcmd subset: don't loop forever for unicode
 ranges ending at U+FFFF

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..e8eb2dd 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -258,7 +258,7 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
+			for r := uint32(ran.Lo); r <= uint32(ran.Hi); r += uint32(ran.Stride) {
 				glyphID := sfnt.GlyphIndex(rune(r))
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
-- 
2.43.0


From bd50da87a7e5716c739c6e71c7161ce0319c47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:29 +0000
Subject: [PATCH 48/60] fix: fontcmd subset: don't panic for characters ending
 in a truncated escape sequence

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index e8eb2dd..3df14cf 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -138,7 +138,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -149,7 +149,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
@@ -160,7 +160,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
-- 
2.43.0


From 70a026c49f8540fde45a47549dd5fc6c68464989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 49/60] fix: fontcmd: don't overwrite a file without asking
 when its existence can't be determined

---
 cmd/fontcmd/css.go  | 2 ++
 cmd/fontcmd/util.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/fontcmd/css.go b/cmd/fontcmd/css.go
index bb4cd04..c6f37a4 100644
--- a/cmd/fontcmd/css.go
+++ b/cmd/fontcmd/css.go
@@ -47,6 +47,8 @@ func (cmd *CSS) Run() error {
 			if !cmd.Force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", cmd.Output), false) {
 				return nil
 			}
+		} else if !cmd.Force && !os.IsNotExist(err) {
+			return err
 		}
 		if w, err = os.Create(cmd.Output); err != nil {
 			return err
diff --git a/cmd/fontcmd/util.go b/cmd/fontcmd/util.go
index 504bc03..1e9cf09 100644
--- a/cmd/fontcmd/util.go
+++ b/cmd/fontcmd/util.go
@@ -166,6 +166,8 @@ func writeFont(filename, mimetype, encoding string, force bool, sfnt *font.SFNT)
 			if !force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", filename), false) {
 				return 0, fmt.Errorf("file already exists")
 			}
+		} else if !force && !os.IsNotExist(err) {
+			return 0, err
 		}
 		if w, err = os.Create(filename); err != nil {
 			return 0, err
-- 
2.43.0


From 97b1ab9279303b58e3b6c7103700a73cbe535f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 50/60] fix: fontcmd css: fail when overwriting the output is
 declined

---
 cmd/fontcmd/css.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/css.go b/cmd/fontcmd/css.go
index c6f37a4..946be10 100644
--- a/cmd/fontcmd/css.go
+++ b/cmd/fontcmd/css.go
@@ -45,7 +45,7 @@ func (cmd *CSS) Run() error {
 	} else {
 		if _, err := os.Stat(cmd.Output); err == nil {
 			if !cmd.Force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", cmd.Output), false) {
-				return nil
+				return fmt.Errorf("file already exists")
 			}
 		} else if !cmd.Force && !os.IsNotExist(err) {
 			return err
-- 
2.43.0


From 59da90cc67c5e61f6b78f78020f487f1e11d9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:32 +0000
Subject: [PATCH 51/60] fix: fontcmd subset: reject unsupported encodings when
 no output is given

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 3df14cf..fb8a260 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0


From e0eb8b958eef347c25143d324508b29e372137e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 52/60] fix: fontcmd subset: accept glyph IDs from 32768 to
 65535

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index fb8a260..d638d7b 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -56,11 +56,11 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseInt(glyph[:dash], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseInt(glyph[dash+1:], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
@@ -72,7 +72,7 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseInt(glyph, 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-- 
2.43.0


From 18a1ad44a04f977327fa5917e497253f58da9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 53/60] fix: fontcmd draw: close the output file and report
 errors

---
 cmd/fontcmd/draw.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 14e07f9..a76e81b 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -165,6 +165,9 @@ func (cmd *Show) Run() error {
 	}
 
 	if err != nil {
+		w.Close()
+		return err
+	} else if err := w.Close(); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From fe9ab5f618fbf3352b000c648c9be2c5bfd56322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:18 +0000
Subject: [PATCH 54/60] fix: fontcmd info: fail for a truncated table directory

---
 cmd/fontcmd/info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/info.go b/cmd/fontcmd/info.go
index fb55e61..f44b816 100644
--- a/cmd/fontcmd/info.go
+++ b/cmd/fontcmd/info.go
@@ -28,6 +28,9 @@ func (cmd *Info) Run() error {
 	}
 	numTables := int(r.ReadUint16())
 	_ = r.ReadBytes(6)
+	if len(b) < 12 || r.Len() < 16*int64(numTables) {
+		return font.ErrInvalidFontData
+	}
 
 	version := "TrueType"
 	if sfntVersion == "OTTO" {
-- 
2.43.0


From cbc987a427ae471598fdbd28da26819c8ac428a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 55/60] fix: fontcmd info: report errors while writing the
 output

---
 cmd/fontcmd/info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/fontcmd/info.go b/cmd/fontcmd/info.go
index f44b816..333b86d 100644
--- a/cmd/fontcmd/info.go
+++ b/cmd/fontcmd/info.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"bufio"
 	"fmt"
 	"io/ioutil"
 	"math"
+	"os"
 
 	"github.com/tdewolff/font"
 	"github.com/tdewolff/parse/v2"
@@ -38,9 +40,10 @@ func (cmd *Info) Run() error {
 	} else if sfntVersion == "ttcf" {
 		version = "Collection"
 	}
-	fmt.Printf("File: %s\n\n", cmd.Input)
-	fmt.Printf("sfntVersion: 0x%08X (%s)\n", sfntVersion, version)
-	fmt.Printf("\nTable directory:\n")
+	w := bufio.NewWriter(os.Stdout)
+	fmt.Fprintf(w, "File: %s\n\n", cmd.Input)
+	fmt.Fprintf(w, "sfntVersion: 0x%08X (%s)\n", sfntVersion, version)
+	fmt.Fprintf(w, "\nTable directory:\n")
 
 	nLen := int(math.Log10(float64(len(b))) + 1)
 	for i := 0; i < numTables; i++ {
@@ -48,7 +51,7 @@ func (cmd *Info) Run() error {
 		checksum := r.ReadUint32()
 		offset := r.ReadUint32()
 		length := r.ReadUint32()
-		fmt.Printf("  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
+		fmt.Fprintf(w, "  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 5438df34d891491d9834a72c7edaa93081e99e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:33 +0000
Subject: [PATCH 56/60] fix: names in other languages than English replace the
 family and style of indexed system fonts

---
 system.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/system.go b/system.go
index e7f03a2..63c042d 100644
--- a/system.go
+++ b/system.go
@@ -552,6 +552,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		found := 0
 		var family, subfamily string
+		var englishFamily, englishSubfamily bool
 		for i := 0; i < 12*int(count); i += 12 {
 			// TODO: check platform and encoding?
 			platform := PlatformID(u16(records[i:]))
@@ -576,10 +577,16 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 				if err != nil {
 					return FontMetadata{}, err
 				}
+				// English names take precedence over those in other languages
+				english := platform == PlatformWindows && (language&0x00FF) == 0x0009
 				if name == NameFontFamily || name == NamePreferredFamily {
-					family = string(val)
+					if english || !englishFamily {
+						family, englishFamily = string(val), english
+					}
 				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
-					subfamily = string(val)
+					if english || !englishSubfamily {
+						subfamily, englishSubfamily = string(val), english
+					}
 				}
 				if name == NamePreferredFamily || name == NamePreferredSubfamily {
 					found++
-- 
2.43.0


From 004360098d14babc2a8ab1e22217b9b03486d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 57/60] fix: CFF: large real numbers in DICTs are cut off when
 written

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8c48c94..b407886 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1878,7 +1878,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 	return 0, math.NaN()
 }
 
-// returns: integer, float, isFrac, ok
+// returns: integer, float, isFrac (or too large for an integer operand), ok
 func cffDICTNumber(val any) (int, float64, bool, bool) {
 	switch v := val.(type) {
 	case int:
@@ -1886,7 +1886,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 	case float64:
 		var i int
 		isFrac := false
-		if integer, frac := math.Modf(v); frac == 0.0 {
+		if integer, frac := math.Modf(v); frac == 0.0 && math.MinInt32 <= integer && integer <= math.MaxInt32 {
 			i = int(integer)
 		} else {
 			isFrac = true
-- 
2.43.0


From 2c9d3e05712875b8fb8a30a8d761d7d76f706fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 58/60] fix: CFF: fonts written from CID-keyed fonts are
 name-keyed in the file but not in memory

---
 sfnt_cff.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index b407886..7249e8d 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2180,6 +2180,15 @@ func (cff *cffTable) Write() ([]byte, error) {
 	strings := &cffINDEX{}
 	if cff.top == nil {
 		cff.top = &cffTopDICT{}
+	} else if cff.top.IsCID {
+		// written as name-keyed font
+		top := *cff.top
+		top.IsCID = false
+		top.ROS1, top.ROS2, top.ROS3 = "", "", 0
+		top.CIDFontVersion, top.CIDFontRevision, top.CIDFontType, top.CIDCount = 0, 0, 0, 8720
+		top.UIDBase = 0
+		top.FontName = ""
+		cff.top = &top
 	}
 	topDICT, err := cff.top.Write(strings)
 	if err != nil {
-- 
2.43.0


From 5515c8c1ba5947eaff72f7aa76eb60e6edf285fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:40 +0000
Subject: [PATCH 59/60] fix: cmap: finding the characters of a glyph takes
 quadratic time when a glyph has many

---
 sfnt_cmap.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 958070a..866abf5 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -399,15 +399,13 @@ func (cmap *cmapTable) Get(r rune) uint16 {
 // ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none.
 func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	var rs []rune
+	seen := map[rune]bool{}
 	for _, subtable := range cmap.Subtables {
-	AppendLoop:
 		for _, r := range subtable.ToUnicode(glyphID) {
-			for _, r2 := range rs {
-				if r2 == r {
-					continue AppendLoop
-				}
+			if !seen[r] {
+				seen[r] = true
+				rs = append(rs, r)
 			}
-			rs = append(rs, r)
 		}
 	}
 	return rs
-- 
2.43.0


From ff79d4c45942c571442ac04c177d24e1587c4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:49 +0000
Subject: [PATCH 60/60] fix: WOFF2: the size declared for the uncompressed font
 is that of another font after an edit

---
 woff2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index ae5387e..a0ed7de 100644
--- a/woff2.go
+++ b/woff2.go
@@ -822,7 +822,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 	w.WriteUint32(0)                                              // length (set later)
 	w.WriteUint16(uint16(len(tags)))                              // numTables
 	w.WriteUint16(0)                                              // reserved
-	w.WriteUint32(sfnt.Length)                                    // totalSfntSize
+	w.WriteUint32(0)                                              // totalSfntSize (set later)
 	w.WriteUint32(0)                                              // totalCompressedSize (set later)
 	w.WriteUint16(1)                                              // majorVersion
 	w.WriteUint16(0)                                              // minorVersion
@@ -843,6 +843,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 			hmtx = transformHmtx(sfnt.Hmtx, xMins)
 		}
 	}
+	totalSfntSize := 12 + 16*uint32(len(tags))
 	for _, tag := range tags {
 		tagIndex := -1
 		for index, woff2Tag := range woff2TableTags {
@@ -870,6 +871,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 				origLength *= 2
 			}
 		}
+		totalSfntSize += (origLength + 3) &^ 3 // with padding
 		writeUintBase128(w, origLength)
 		if glyf != nil && tag == "glyf" {
 			writeUintBase128(w, uint32(len(glyf)))
@@ -922,6 +924,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 
 	b := w.Bytes()
 	binary.BigEndian.PutUint32(b[8:], uint32(len(b)))               // length
+	binary.BigEndian.PutUint32(b[16:], totalSfntSize)               // totalSfntSize
 	binary.BigEndian.PutUint32(b[20:], uint32(totalCompressedSize)) // totalCompressedSize
 	return b, nil
 }
-- 
2.43.0

