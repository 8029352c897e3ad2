From 6c2d38c823833020644adfe8660bbb0e2507c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 001/153] fix: glyphs with zero contours and a header have an
 empty outline instead of panicking

---
 sfnt_truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..769bd80 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -181,7 +181,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 	contour.YMax = r.ReadInt16()
 	if 0 <= numberOfContours {
 		// simple glyph
-		if r.Len() < 2*int64(numberOfContours)+2 {
+		if numberOfContours == 0 {
+			// no outline
+			return contour, nil
+		} else if r.Len() < 2*int64(numberOfContours)+2 {
 			return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 		}
 		contour.EndPoints = make([]uint16, numberOfContours)
-- 
2.43.0


From a9d377f8dbd11f42bdff49deddbece6cc8e8e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 002/153] fix: reject glyphs of which the contour end points
 are not increasing instead of panicking

---
 sfnt_truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 769bd80..91450c3 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -190,6 +190,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] <= contour.EndPoints[i-1] {
+				return nil, fmt.Errorf("glyf: bad end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
-- 
2.43.0


From cceda8106f09bee63e63e56cac6a30d1a3cac8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 003/153] fix: reject glyph flags that repeat beyond the last
 point instead of panicking

---
 sfnt_truetype.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 91450c3..0595756 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -214,7 +214,13 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OnCurve[i] = flags[i]&0x01 != 0
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
+				if r.Len() < 1 {
+					return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+				}
 				repeats := r.ReadUint8()
+				if numPoints-i-1 < int(repeats) {
+					return nil, fmt.Errorf("glyf: bad flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
-- 
2.43.0


From 294a4fd05ff4954244b94b6f494a01325656075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 004/153] fix: drawing a glyph with 65536 points does not loop
 forever

---
 sfnt_truetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 0595756..48c9c8f 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -379,14 +379,14 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 		return err
 	}
 
-	var i uint16
+	i := 0
 	for _, endPoint := range contour.EndPoints {
 		j := i
 		first := true
 		firstOff := false
 		prevOff := false
 		startX, startY := 0.0, 0.0
-		for ; i <= endPoint; i++ {
+		for ; i <= int(endPoint); i++ {
 			if first {
 				if contour.OnCurve[i] {
 					startX = float64(contour.XCoordinates[i])
-- 
2.43.0


From d9e7bfd676334d055f0c57b90fb50f928dc8622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 005/153] fix: glyphs with offsets that are out of order or out
 of range are bad glyphs instead of a panic

---
 sfnt_truetype.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 48c9c8f..b627c6c 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -70,9 +70,12 @@ type glyfTable struct {
 
 // Get returns the glyph data corresponding to the passed glyphID. It returns nil if the glyph doesn't exist.
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
+	if glyphID == math.MaxUint16 {
+		return nil
+	}
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || end < start || uint32(len(glyf.data)) < end {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -467,9 +470,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+2 <= len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+4 <= len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From ec7e9c8299ca18340d3ee2145b38a749ca09e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 006/153] fix: contours starting with an off-curve point
 followed by an on-curve point are drawn correctly

---
 sfnt_truetype.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index b627c6c..39402d9 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -396,6 +396,7 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					startY = float64(contour.YCoordinates[i])
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
+					prevOff = false
 				} else if !prevOff {
 					// first point is off
 					firstOff = true
-- 
2.43.0


From d3133d69be2c44ea98ba43e326719ab32b81ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 007/153] fix: implied on-curve points between far away control
 points do not overflow

---
 sfnt_truetype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 39402d9..9ca0d58 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -403,8 +403,8 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					prevOff = true
 				} else {
 					// first and second point are off
-					startX = float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					startY = float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					startX = (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					startY = (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
 				}
@@ -419,16 +419,16 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*float64(contour.XCoordinates[i]), y+f*float64(contour.YCoordinates[i]))
 					prevOff = false
 				} else {
-					midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				}
 			}
 		}
 		if firstOff {
 			if prevOff {
-				midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[j]) / 2.0
-				midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[j]) / 2.0
+				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
+				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				p.QuadTo(x+f*float64(contour.XCoordinates[j]), y+f*float64(contour.YCoordinates[j]), x+f*startX, y+f*startY)
 			} else {
-- 
2.43.0


From e9ccc2d2e120ff37bcb813a182a86311376374a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 008/153] fix: a contour of a single off-curve point does not
 draw before moving to its start

---
 sfnt_truetype.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 9ca0d58..f949883 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -426,7 +426,12 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 			}
 		}
 		if firstOff {
-			if prevOff {
+			if first {
+				// single off-curve point
+				startX = float64(contour.XCoordinates[j])
+				startY = float64(contour.YCoordinates[j])
+				p.MoveTo(x+f*startX, y+f*startY)
+			} else if prevOff {
 				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
 				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
-- 
2.43.0


From b08e3f126b6559a712b3db19017f2bb67d706452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 009/153] fix: limit the total number of components of a
 composite glyph to prevent exponential time and memory

---
 sfnt_truetype.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index f949883..eb5bad7 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -63,6 +63,9 @@ func (contour *glyfContour) String() string {
 	return b.String()
 }
 
+// maxGlyfComponents is the maximum number of components of a composite glyph, including those of its components.
+const maxGlyfComponents = math.MaxUint16
+
 type glyfTable struct {
 	data []byte
 	loca *locaTable
@@ -92,10 +95,11 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	components := 0
+	return glyf.dependencies(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -122,7 +126,10 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			if *components++; maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -160,10 +167,11 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	components := 0
+	return glyf.contour(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -335,7 +343,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			if *components++; maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From d22f1a73ce9a7660a0b825fba912deaadc1d819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 010/153] fix: reject composite glyphs with more points than
 can be numbered instead of panicking

---
 sfnt_truetype.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index eb5bad7..66c9049 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -351,12 +351,12 @@ func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*gly
 				return nil, err
 			}
 
-			var numPoints uint16
-			if 0 < len(contour.EndPoints) {
-				numPoints = contour.EndPoints[len(contour.EndPoints)-1] + 1
+			numPoints := len(contour.XCoordinates)
+			if math.MaxUint16+1 < numPoints+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
 			}
 			for i := 0; i < len(subContour.EndPoints); i++ {
-				contour.EndPoints = append(contour.EndPoints, numPoints+subContour.EndPoints[i])
+				contour.EndPoints = append(contour.EndPoints, uint16(numPoints)+subContour.EndPoints[i])
 			}
 			contour.OnCurve = append(contour.OnCurve, subContour.OnCurve...)
 			contour.OverlapSimple = append(contour.OverlapSimple, subContour.OverlapSimple...)
-- 
2.43.0


From ec0c3f2da098921f3674aaf524ec52b118d91cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 011/153] fix: reject composite glyphs with truncated
 instructions instead of panicking

---
 sfnt_truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 66c9049..0cffd49 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -377,6 +377,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*gly
 			}
 		}
 		if hasInstructions {
+			if r.Len() < 2 {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
 			instructionLength := r.ReadUint16()
 			if r.Len() < int64(instructionLength) {
 				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
-- 
2.43.0


From 66a4d889d68f271f2afe017ba7abed65d0b5742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 012/153] fix: kern subtables with minimum values do not change
 pairs they do not contain

---
 sfnt_truetype.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 0cffd49..ae0ccbb 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -551,6 +551,11 @@ type kernFormat0 struct {
 }
 
 func (subtable *kernFormat0) Get(l, r uint16) int16 {
+	value, _ := subtable.find(l, r)
+	return value
+}
+
+func (subtable *kernFormat0) find(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -561,10 +566,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -573,10 +578,13 @@ type kernTable struct {
 
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
-		if !subtable.Coverage[1] { // kerning values
-			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
-			k = min // TODO: test minimal kerning
+		value, ok := subtable.find(l, r)
+		if !ok {
+			continue
+		} else if !subtable.Coverage[1] { // kerning values
+			k += value
+		} else if k < value { // minimum values (usually last subtable)
+			k = value // TODO: test minimal kerning
 		}
 	}
 	return
-- 
2.43.0


From 96e5c7f1bfdca5bb95c443e5364b8a1af94fa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 013/153] fix: ignore vertical and cross-stream kern subtables
 for horizontal kerning and honour override subtables

---
 sfnt_truetype.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index ae0ccbb..aba435f 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -578,9 +578,14 @@ type kernTable struct {
 
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
+		if !subtable.Coverage[0] || subtable.Coverage[2] {
+			continue // vertical or cross-stream
+		}
 		value, ok := subtable.find(l, r)
 		if !ok {
 			continue
+		} else if subtable.Coverage[3] { // override
+			k = value
 		} else if !subtable.Coverage[1] { // kerning values
 			k += value
 		} else if k < value { // minimum values (usually last subtable)
-- 
2.43.0


From 6ad039fd3461a5691aac22e9e99f6e4472d56ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 014/153] fix: read Apple kern subtable headers, skip
 unsupported kern subtables completely, and check kern subtable lengths

---
 sfnt_truetype.go | 59 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index aba435f..ba1e682 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -622,23 +622,43 @@ func (sfnt *SFNT) parseKern() error {
 	}
 
 	sfnt.Kern = &kernTable{}
+	headerLength := int64(6)
+	if majorVersion == 1 {
+		headerLength = 8
+	}
 	for j := 0; j < int(nTables); j++ {
-		if r.Len() < 6 {
+		if r.Len() < headerLength {
 			return fmt.Errorf("kern: bad subtable %d", j)
 		}
 
 		subtable := kernFormat0{}
 		startPos := r.Pos()
-		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
-			// TODO: supported other kern subtable versions
-			continue
+		var subtableVersion uint16
+		var length uint32
+		var format uint8
+		if majorVersion == 0 {
+			subtableVersion = r.ReadUint16()
+			length = uint32(r.ReadUint16())
+			format = r.ReadUint8()
+			subtable.Coverage = Uint8ToFlags(r.ReadUint8())
+		} else {
+			// Apple format
+			length = r.ReadUint32()
+			coverage := r.ReadUint8()
+			format = r.ReadUint8()
+			_ = r.ReadUint16() // tupleIndex
+			if coverage&0x20 != 0 {
+				subtableVersion = 1 // variation values are not supported
+			}
+			subtable.Coverage[0] = coverage&0x80 == 0 // horizontal
+			subtable.Coverage[2] = coverage&0x40 != 0 // cross-stream
 		}
-		length := r.ReadUint16()
-		format := r.ReadUint8()
-		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
-			// TODO: supported other kern subtable formats
+		if subtableVersion != 0 || format != 0 {
+			// TODO: support other kern subtable versions and formats
+			if int64(length) < headerLength || r.Len() < int64(length)-headerLength {
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(int64(length) - headerLength)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -647,18 +667,17 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length) {
-			if j+1 == int(nTables) {
-				// for some fonts the subtable's length exceeds what can fit in a uint16
-				// we allow only the last subtable to exceed as long as it stays within the table
-				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
-					return fmt.Errorf("kern: bad length for subtable %d", j)
-				}
-			} else {
+		minLength := headerLength + 8 + 6*int64(nPairs)
+		if r.Len() < 6*int64(nPairs) {
+			return fmt.Errorf("kern: bad length for subtable %d", j)
+		} else if int64(length) < minLength {
+			// for some fonts the subtable's length exceeds what can fit in a uint16
+			// we allow only the last subtable to exceed as long as it stays within the table
+			if j+1 != int(nTables) || majorVersion != 0 || int64(length) != minLength&0xFFFF {
 				return fmt.Errorf("kern: bad length for subtable %d", j)
 			}
+		} else if r.Len() < int64(length)-headerLength-8 {
+			return fmt.Errorf("kern: bad length for subtable %d", j)
 		}
 
 		sorted := true
-- 
2.43.0


From 91e3cc29b6478888c3e278933d1c15d5983cea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 015/153] fix: split kern subtables with too many pairs when
 writing instead of overflowing the length

---
 sfnt_truetype.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index ba1e682..374636c 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -704,10 +704,22 @@ func (sfnt *SFNT) parseKern() error {
 }
 
 func (kern *kernTable) Write() []byte {
-	w := parse.NewBinaryWriter([]byte{})
-	w.WriteUint16(0)                           // version
-	w.WriteUint16(uint16(len(kern.Subtables))) // nTables
+	// split subtables with more pairs than the length field can express
+	const maxPairs = (math.MaxUint16 - 14) / 6
+	subtables := make([]kernFormat0, 0, len(kern.Subtables))
 	for _, subtable := range kern.Subtables {
+		pairs := subtable.Pairs
+		for maxPairs < len(pairs) {
+			subtables = append(subtables, kernFormat0{Coverage: subtable.Coverage, Pairs: pairs[:maxPairs]})
+			pairs = pairs[maxPairs:]
+		}
+		subtables = append(subtables, kernFormat0{Coverage: subtable.Coverage, Pairs: pairs})
+	}
+
+	w := parse.NewBinaryWriter([]byte{})
+	w.WriteUint16(0)                      // version
+	w.WriteUint16(uint16(len(subtables))) // nTables
+	for _, subtable := range subtables {
 		w.WriteUint16(0)                                     // version
 		w.WriteUint16(6 + 8 + 6*uint16(len(subtable.Pairs))) // length
 		w.WriteUint8(0)                                      // format
-- 
2.43.0


From 319cfbf9006c1b086b760d4f017a5f7c8e89d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 016/153] fix: write a valid search header for kern subtables
 without pairs

---
 sfnt_truetype.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 374636c..d97f6f0 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -726,8 +726,11 @@ func (kern *kernTable) Write() []byte {
 		w.WriteUint8(flagsToUint8(subtable.Coverage))        // coverage
 
 		nPairs := uint16(len(subtable.Pairs))
-		entrySelector := uint16(math.Log2(float64(nPairs)))
-		searchRange := uint16(1 << entrySelector * 6)
+		var entrySelector, searchRange uint16
+		if 0 < nPairs {
+			entrySelector = uint16(math.Log2(float64(nPairs)))
+			searchRange = uint16(1 << entrySelector * 6)
+		}
 		w.WriteUint16(nPairs)
 		w.WriteUint16(searchRange)
 		w.WriteUint16(entrySelector)
-- 
2.43.0


From 288e903469dd9f68cc0e70489bc6ec60489ed0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 017/153] fix: reject short maxp tables instead of panicking

---
 sfnt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index f187967..151a6e4 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -848,6 +848,10 @@ func (sfnt *SFNT) parseMaxp() error {
 		return fmt.Errorf("maxp: missing table")
 	}
 
+	if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
+	}
+
 	sfnt.Maxp = &maxpTable{}
 	r := parse.NewBinaryReaderBytes(b)
 	sfnt.Maxp.Version = binary.BigEndian.Uint32(r.ReadBytes(4))
-- 
2.43.0


From cc277e2545c8530584ebffa9474ad9130b071a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 018/153] fix: reject head, hhea, and vhea tables of unknown
 versions

---
 sfnt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 151a6e4..98e5c72 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -558,7 +558,7 @@ func (sfnt *SFNT) parseHead() error {
 	r := parse.NewBinaryReaderBytes(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
-	if majorVersion != 1 && minorVersion != 0 {
+	if majorVersion != 1 || minorVersion != 0 {
 		return fmt.Errorf("head: bad version")
 	}
 	sfnt.Head.FontRevision = r.ReadUint32()
@@ -623,7 +623,7 @@ func (sfnt *SFNT) parseHhea() error {
 	r := parse.NewBinaryReaderBytes(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
-	if majorVersion != 1 && minorVersion != 0 {
+	if majorVersion != 1 || minorVersion != 0 {
 		return fmt.Errorf("hhea: bad version")
 	}
 	sfnt.Hhea.Ascender = r.ReadInt16()
@@ -681,7 +681,7 @@ func (sfnt *SFNT) parseVhea() error {
 	r := parse.NewBinaryReaderBytes(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
-	if majorVersion != 1 && minorVersion != 0 && minorVersion != 1 {
+	if majorVersion != 1 || minorVersion != 0 && minorVersion != 1 && minorVersion != 0x1000 {
 		return fmt.Errorf("vhea: bad version")
 	}
 	sfnt.Vhea.Ascender = r.ReadInt16()
-- 
2.43.0


From 09ea1659934480600d251eb87b47c93e93a500c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 019/153] fix: read every font of a collection, in any order,
 and reject table directories that are out of range

---
 sfnt.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 98e5c72..909b19d 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -301,13 +301,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 
 		_ = r.ReadBytes(int64(4 * index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 2e03adb72ba524a18f83dffa30adf6c494f334b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 020/153] fix: accept empty tables at the end of the file

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 909b19d..e50d17e 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -329,7 +329,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		length := r.ReadUint32()
 
 		padding := (4 - length&3) & 3
-		if uint32(len(b)) <= offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
+		if uint32(len(b)) < offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 18a893d0645df8d02811d97a525540a945f2bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 021/153] fix: name tables of 64 kB and more are read correctly
 instead of panicking

---
 sfnt.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index e50d17e..d195521 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -962,7 +962,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 	count := r.ReadUint16()
 	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < uint32(storageOffset) {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -974,10 +974,11 @@ func (sfnt *SFNT) parseName() error {
 
 		length := r.ReadUint16()
 		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		start := uint32(storageOffset) + uint32(offset)
+		if uint32(len(b)) < start || uint32(len(b))-start < uint32(length) {
 			return fmt.Errorf("name: bad table")
 		}
-		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+		sfnt.Name.NameRecord[i].Value = b[start : start+uint32(length)]
 	}
 	if version == 1 {
 		if uint32(len(b)) < 6+12*uint32(count)+2 {
@@ -991,10 +992,11 @@ func (sfnt *SFNT) parseName() error {
 		for i := 0; i < int(langTagCount); i++ {
 			length := r.ReadUint16()
 			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			start := uint32(storageOffset) + uint32(offset)
+			if uint32(len(b)) < start || uint32(len(b))-start < uint32(length) {
 				return fmt.Errorf("name: bad table")
 			}
-			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+			sfnt.Name.LangTag[i].Value = b[start : start+uint32(length)]
 		}
 	}
 	if r.Pos() != int64(storageOffset) {
-- 
2.43.0


From 6908a727c62032790323b6da7a2bba19215c1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 022/153] fix: text of name records with an unsupported
 encoding does not panic

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index d195521..6620e14 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -909,6 +909,8 @@ func (record nameRecord) String() string {
 		decoder = unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
 	} else if record.Platform == PlatformMacintosh && record.Encoding == EncodingMacintoshRoman {
 		decoder = charmap.Macintosh.NewDecoder()
+	} else {
+		return string(record.Value)
 	}
 	s, _, err := transform.String(decoder, string(record.Value))
 	if err == nil {
-- 
2.43.0


From d72b8d46156cd554733c9ac7ea0f2a13c87dc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 023/153] fix: queries on fonts without OS/2, post, hhea, hmtx,
 or head table do not panic

---
 sfnt.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 6620e14..76e4f24 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -128,6 +130,8 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
@@ -137,6 +141,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return ascender, descender, lineGap
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -147,7 +154,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
-	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap
+	} else if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
 			descender = uint16(-sfnt.OS2.STypoDescender)
@@ -183,13 +192,16 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
-- 
2.43.0


From 19891f4515eebe2da26c8db61e705cd1184043bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 024/153] fix: calculate the external leading without overflow

---
 sfnt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 76e4f24..0da8500 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -169,8 +169,10 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
-			if 0 < externalLeading {
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent) - int(sfnt.OS2.UsWinDescent)
+			if math.MaxUint16 < externalLeading {
+				lineGap = math.MaxUint16
+			} else if 0 < externalLeading {
 				lineGap = uint16(externalLeading)
 			} else {
 				lineGap = 0
-- 
2.43.0


From 18a1b1fc6f473b4b431e398078f22a590a7177bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 025/153] fix: side bearings of glyphs that do not exist are
 zero instead of a panic

---
 sfnt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 0da8500..4ba967c 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -727,7 +727,9 @@ type hmtxTable struct {
 }
 
 func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
+	if len(hmtx.HMetrics)+len(hmtx.LeftSideBearings) <= int(glyphID) {
+		return 0
+	} else if uint16(len(hmtx.HMetrics)) <= glyphID {
 		return hmtx.LeftSideBearings[glyphID-uint16(len(hmtx.HMetrics))]
 	}
 	return hmtx.HMetrics[glyphID].LeftSideBearing
@@ -785,7 +787,9 @@ type vmtxTable struct {
 }
 
 func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
+	if len(vmtx.VMetrics)+len(vmtx.TopSideBearings) <= int(glyphID) {
+		return 0
+	} else if uint16(len(vmtx.VMetrics)) <= glyphID {
 		return vmtx.TopSideBearings[glyphID-uint16(len(vmtx.VMetrics))]
 	}
 	return vmtx.VMetrics[glyphID].TopSideBearing
-- 
2.43.0


From d091dfb46633baefc0610a8c23f76305db790be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 026/153] fix: writing fonts without head table does not
 overwrite the version

---
 sfnt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 4ba967c..a6bdef2 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -535,7 +535,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 63f88c2cb6bddb53781381431a2a18ad3435e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 027/153] fix: writing embedded fonts with a short head table
 does not panic

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index a6bdef2..63308ec 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -506,7 +506,7 @@ func (sfnt *SFNT) Write() []byte {
 	for i, tag := range tags {
 		offsets[i] = uint32(w.Len())
 		table := sfnt.Tables[tag]
-		if tag == "head" {
+		if tag == "head" && 36 <= len(table) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 			w.WriteBytes(table[:8])
 			w.WriteUint32(0)
-- 
2.43.0


From 5e7459dff024384fd22da3626889a140ec38b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 028/153] fix: finding a glyph name shared by several glyphs
 returns the first glyph, as for CFF fonts

---
 sfnt.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 63308ec..f1c60ca 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1064,10 +1064,16 @@ func (post *postTable) Find(name string) (uint16, bool) {
 	post.once.Do(func() {
 		post.nameMap = make(map[string]uint16, len(post.glyphNameIndex))
 		for glyphID, index := range post.glyphNameIndex {
+			var glyphName string
 			if index < 258 {
-				post.nameMap[macintoshGlyphNames[index]] = uint16(glyphID)
+				glyphName = macintoshGlyphNames[index]
 			} else if int(index)-258 < len(post.stringData) {
-				post.nameMap[string(post.stringData[index-258])] = uint16(glyphID)
+				glyphName = string(post.stringData[index-258])
+			} else {
+				continue
+			}
+			if _, ok := post.nameMap[glyphName]; !ok {
+				post.nameMap[glyphName] = uint16(glyphID)
 			}
 		}
 	})
-- 
2.43.0


From a112ed5855609eb59868f5e851850e2989bb1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 029/153] fix: fonts with standard glyph names do not name
 glyphs they do not have

---
 sfnt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f1c60ca..f668df3 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1107,8 +1107,12 @@ func (sfnt *SFNT) parsePost() error {
 	sfnt.Post.MinMemType1 = r.ReadUint32()
 	sfnt.Post.MaxMemType1 = r.ReadUint32()
 	if version == 0x00010000 && sfnt.IsTrueType && len(b) == 32 {
-		sfnt.Post.glyphNameIndex = make([]uint16, 258)
-		for i := 0; i < 258; i++ {
+		n := 258
+		if int(sfnt.Maxp.NumGlyphs) < n {
+			n = int(sfnt.Maxp.NumGlyphs)
+		}
+		sfnt.Post.glyphNameIndex = make([]uint16, n)
+		for i := 0; i < n; i++ {
 			sfnt.Post.glyphNameIndex[i] = uint16(i)
 		}
 		return nil
-- 
2.43.0


From eaa38a673a3d4babb132b8f0019a16ae90bc6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 030/153] fix: read an empty glyph name at the end of the post
 table

---
 sfnt.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f668df3..d47ad3c 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1132,16 +1132,15 @@ func (sfnt *SFNT) parsePost() error {
 
 		// get string data first
 		sfnt.Post.stringData = [][]byte{}
-		for 2 <= r.Len() {
+		for 0 < r.Len() {
 			length := r.ReadUint8()
-			if r.Len() < int64(length) || 63 < length {
+			if length != 0 && r.Len() == 0 {
+				break // superfluous last byte
+			} else if r.Len() < int64(length) || 63 < length {
 				return fmt.Errorf("post: bad stringData")
 			}
 			sfnt.Post.stringData = append(sfnt.Post.stringData, r.ReadBytes(int64(length)))
 		}
-		if 1 < r.Len() {
-			return fmt.Errorf("post: bad stringData")
-		}
 		return nil
 	} else if version == 0x00025000 && sfnt.IsTrueType && len(b) == 32 {
 		return fmt.Errorf("post: version 2.5 not supported")
-- 
2.43.0


From f76c4e59a92e246ab59d07bea0d64500e57af964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 031/153] fix: write negative italic angles exactly

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index d47ad3c..00fc24a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1159,7 +1159,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From e8973a8eebfc7b4545740c4fa37d5a1809d1410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 032/153] fix: setting glyph names after looking up a name does
 not panic, and leaves the font as is on error

---
 sfnt_subset.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..270316c 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -512,35 +512,43 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
+	post := &postTable{
+		ItalicAngle:        sfnt.Post.ItalicAngle,
+		UnderlinePosition:  sfnt.Post.UnderlinePosition,
+		UnderlineThickness: sfnt.Post.UnderlineThickness,
+		IsFixedPitch:       sfnt.Post.IsFixedPitch,
+		MinMemType42:       sfnt.Post.MinMemType42,
+		MaxMemType42:       sfnt.Post.MaxMemType42,
+		MinMemType1:        sfnt.Post.MinMemType1,
+		MaxMemType1:        sfnt.Post.MaxMemType1,
+		NumGlyphs:          sfnt.NumGlyphs(),
+		glyphNameIndex:     make([]uint16, sfnt.NumGlyphs()),
+		stringData:         [][]byte{},
+	}
 
-	lastIndex := uint16(258)
+	indices := map[string]uint16{}
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
 	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(258 + len(post.stringData))
+			post.stringData = append(post.stringData, []byte(name))
+			indices[name] = index
 		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+		post.glyphNameIndex[glyphID] = index
 	}
 
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
 
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
-- 
2.43.0


From 25fe8ca8cff8061e81aefdf6789db68595e6000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 033/153] fix: reject cmap subtables that extend beyond the
 table instead of panicking

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..6111d72 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -453,7 +453,7 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-- 
2.43.0


From 5de569211f725c233e24af34a4401ee6594b1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 034/153] fix: reject cmap format 4 segments that start before
 the glyph array instead of panicking

---
 sfnt_cmap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 6111d72..2586c1b 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -548,8 +548,9 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						startIndex := int(idRangeOffset/2) - (int(segCount) - i)
+						endIndex := startIndex + int(subtable.EndCode[i]-subtable.StartCode[i])
+						if startIndex < 0 || glyphIdArrayLength <= endIndex {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
-- 
2.43.0


From a929fe0f3410a8c99672e548beaeb7027e8650ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 035/153] fix: add idDelta to the glyph IDs of cmap format 4
 segments with a glyph array

---
 sfnt_cmap.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 2586c1b..7031e12 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -63,7 +63,11 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 			// r-startCode  ->  difference of rune with startCode
 			// -(n-1)  ->  subtract offset from the current idRangeOffset item
 			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			glyphID := subtable.GlyphIdArray[index] // index is always valid
+			if glyphID != 0 {
+				glyphID += uint16(subtable.IdDelta[i]) // is modulo 65536
+			}
+			return glyphID, true
 		}
 	}
 	return 0, false
@@ -85,6 +89,9 @@ func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 					// -(n-1)  ->  subtract offset from the current idRangeOffset item
 					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
 					id = subtable.GlyphIdArray[index]
+					if id != 0 {
+						id += uint16(subtable.IdDelta[i]) // is modulo 65536
+					}
 				}
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
@@ -561,11 +568,22 @@ func (sfnt *SFNT) parseCmap() error {
 
 				subtable.GlyphIdArray = make([]uint16, glyphIdArrayLength)
 				for i := 0; i < int(glyphIdArrayLength); i++ {
-					glyphID := rs.ReadUint16()
-					if sfnt.Maxp.NumGlyphs <= glyphID {
-						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+					subtable.GlyphIdArray[i] = rs.ReadUint16()
+				}
+				for i := 0; i < int(segCount-1); i++ {
+					if subtable.IdRangeOffset[i] == 0 {
+						continue
+					}
+					index := int(subtable.IdRangeOffset[i]/2) - (int(segCount) - i)
+					n := int(subtable.EndCode[i]-subtable.StartCode[i]) + 1
+					for _, glyphID := range subtable.GlyphIdArray[index : index+n] {
+						if glyphID != 0 {
+							glyphID += uint16(subtable.IdDelta[i]) // is modulo 65536
+						}
+						if sfnt.Maxp.NumGlyphs <= glyphID {
+							return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+						}
 					}
-					subtable.GlyphIdArray[i] = glyphID
 				}
 				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, subtable)
 			case 6:
-- 
2.43.0


From 7e96a3d042d1119f3695c3c7bb3471ea691ae917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 036/153] fix: reject character codes beyond Unicode in cmap
 format 12 instead of looping forever

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 7031e12..b49ea20 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -623,7 +623,7 @@ func (sfnt *SFNT) parseCmap() error {
 					startCharCode := rs.ReadUint32()
 					endCharCode := rs.ReadUint32()
 					startGlyphID := rs.ReadUint32()
-					if endCharCode < startCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
+					if 0x10FFFF < endCharCode || endCharCode < startCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
 						return fmt.Errorf("cmap: bad character code range in subtable %d", j)
 					} else if uint32(sfnt.Maxp.NumGlyphs) <= endCharCode-startCharCode || uint32(sfnt.Maxp.NumGlyphs)-(endCharCode-startCharCode) <= startGlyphID {
 						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
-- 
2.43.0


From 2933d46efd28336077bae983c607292590715339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 037/153] fix: encoding records refer to the right cmap
 subtable

---
 sfnt_cmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index b49ea20..c3a994c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -465,7 +465,7 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 		for i := 0; i < len(offsets); i++ {
 			if offset == offsets[i] && length == lengths[i] {
-				subtableID = int(i)
+				subtableID = int(i) - 1 // first is the cmap header
 				break
 			} else if offset <= offsets[i] && offsets[i] < offset+length {
 				return fmt.Errorf("cmap: bad subtable %d", j)
@@ -637,6 +637,7 @@ func (sfnt *SFNT) parseCmap() error {
 				if platformID != 0 || encodingID != 5 {
 					return fmt.Errorf("cmap: bad subtable %d", j)
 				}
+				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, &cmapFormat14{})
 				// TODO: implement cmap subtable format 14
 				//numVarSelectorRecords := rs.ReadUint32()
 				//for i := 0; i < int(numVarSelectorRecords); i++ {
-- 
2.43.0


From 0ba918e17156f79de33aa3767476f540a8797708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 038/153] fix: character codes of Macintosh Roman cmap
 subtables are not Unicode code points

---
 sfnt_cmap.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index c3a994c..d0b296a 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 	"sync"
 
+	"golang.org/x/text/encoding/charmap"
+
 	"github.com/tdewolff/parse/v2"
 )
 
@@ -182,6 +184,29 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 	return subtable.unicodeMap[glyphID]
 }
 
+// cmapMacRoman is a subtable of which the character codes are in the Macintosh Roman encoding.
+type cmapMacRoman struct {
+	cmapSubtable
+}
+
+func (subtable *cmapMacRoman) Get(r rune) (uint16, bool) {
+	code, ok := charmap.Macintosh.EncodeRune(r)
+	if !ok {
+		return 0, false
+	}
+	return subtable.cmapSubtable.Get(rune(code))
+}
+
+func (subtable *cmapMacRoman) ToUnicode(glyphID uint16) []rune {
+	var rs []rune
+	for _, code := range subtable.cmapSubtable.ToUnicode(glyphID) {
+		if code < 256 {
+			rs = append(rs, charmap.Macintosh.DecodeByte(byte(code)))
+		}
+	}
+	return rs
+}
+
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
@@ -431,10 +456,12 @@ func (sfnt *SFNT) parseCmap() error {
 
 	// find and extract subtables and make sure they don't overlap each other
 	offsets, lengths := []uint32{0}, []uint32{4 + 8*uint32(numTables)}
+	macRomans := []bool{false}
 	for j := 0; j < int(numTables); j++ {
 		platformID := r.ReadUint16()
 		encodingID := r.ReadUint16()
 		subtableID := -1
+		macRoman := PlatformID(platformID) == PlatformMacintosh && EncodingID(encodingID) == EncodingMacintoshRoman
 
 		offset := r.ReadUint32()
 		if uint32(len(b))-8 < offset { // to extract the subtable format and length
@@ -465,8 +492,10 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 		for i := 0; i < len(offsets); i++ {
 			if offset == offsets[i] && length == lengths[i] {
-				subtableID = int(i) - 1 // first is the cmap header
-				break
+				if macRoman == macRomans[i] {
+					subtableID = int(i) - 1 // first is the cmap header
+					break
+				}
 			} else if offset <= offsets[i] && offsets[i] < offset+length {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
@@ -477,6 +506,7 @@ func (sfnt *SFNT) parseCmap() error {
 			subtableID = len(sfnt.Cmap.Subtables)
 			offsets = append(offsets, offset)
 			lengths = append(lengths, length)
+			macRomans = append(macRomans, macRoman)
 
 			switch format {
 			case 0:
@@ -667,6 +697,9 @@ func (sfnt *SFNT) parseCmap() error {
 			default:
 				return fmt.Errorf("cmap: unsupported subtable format %d", format)
 			}
+			if macRoman {
+				sfnt.Cmap.Subtables[subtableID] = &cmapMacRoman{sfnt.Cmap.Subtables[subtableID]}
+			}
 		}
 		sfnt.Cmap.EncodingRecords = append(sfnt.Cmap.EncodingRecords, cmapEncodingRecord{
 			PlatformID: platformID,
-- 
2.43.0


From abe83aa45905728a72bf3be5f27d314e95ee0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 039/153] fix: write cmap format 4 segments of glyph IDs equal
 to their character codes correctly

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index d0b296a..f34a4e8 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -210,9 +210,11 @@ func (subtable *cmapMacRoman) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	contiguousSegments := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		contiguousSegments = append(contiguousSegments, contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -298,7 +300,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if contiguousSegments[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From be894b4d650812162b78886271330e358f7400ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 040/153] fix: write the cmap correctly when runes map to
 several glyphs

---
 sfnt_cmap.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index f34a4e8..6b377f1 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -208,7 +208,7 @@ func (subtable *cmapMacRoman) ToUnicode(glyphID uint16) []rune {
 }
 
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
-	// rs is sorted
+	// rs is sorted and unique
 	data := cmapFormat4{}
 	contiguousSegments := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
@@ -238,9 +238,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 	i0 := 0
 	glyphIDs := []uint16{runeMap[rs[0]]}
 	for i := 1; i <= len(rs); i++ {
-		if i < len(rs) && rs[i] == rs[i-1] {
-			continue
-		} else if i == len(rs) || rs[i-1]+1 != rs[i] {
+		if i == len(rs) || rs[i-1]+1 != rs[i] {
 			// Find subsets of glyphIDs that are contiguous for at least 9 glyphs in a row.
 			// Track index before which is already written as segment (j0) and track index
 			// before which glyph indices are not contiguous (jc). Write a new segments whenever we
@@ -358,6 +356,14 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 	}
 
 	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
+	n := 1
+	for i := 1; i < len(rs); i++ {
+		if rs[i] != rs[n-1] {
+			rs[n] = rs[i]
+			n++
+		}
+	}
+	rs = rs[:n]
 
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
-- 
2.43.0


From c78dde23a5cd17cba6c61e92628c7c162768e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 041/153] fix: write the cmap correctly when contiguous glyph
 IDs are followed by others

---
 sfnt_cmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 6b377f1..480ebef 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -248,8 +248,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 			j0, jc := 0, 0
 			for j := 1; j <= len(glyphIDs); j++ {
 				if j == len(glyphIDs) || glyphIDs[j-1]+1 != glyphIDs[j] && 8 < j-jc {
-					if 8 < j-jc && j0 != jc {
-						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+					if 8 < j-jc {
+						if j0 != jc {
+							addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+						}
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
 						j0, jc = j, j
 					} else if j == len(glyphIDs) {
-- 
2.43.0


From 3b548c96e6e198c440bed260e3bb5ce48520922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 042/153] fix: write character maps that do not fit cmap format
 4 as format 12

---
 sfnt_cmap.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 480ebef..cb2c594 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -207,7 +207,8 @@ func (subtable *cmapMacRoman) ToUnicode(glyphID uint16) []rune {
 	return rs
 }
 
-func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
+// cmapWriteFormat4 returns false if the character map is too large for the format.
+func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) bool {
 	// rs is sorted and unique
 	data := cmapFormat4{}
 	contiguousSegments := []bool{}
@@ -272,9 +273,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		}
 		glyphIDs = append(glyphIDs, runeMap[rs[i]])
 	}
-	if rs[len(rs)-1] != 0xFFFF {
-		addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
-	}
+	addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
 
 	start := w.Len()
 	w.WriteUint16(4) // format
@@ -311,8 +310,11 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
+	if math.MaxUint16 < w.Len()-start {
+		return false // exceeds the range of the length field
+	}
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
+	return true
 }
 
 func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
@@ -378,14 +380,15 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 			maxRune = r
 		}
 	}
-	if maxRune <= 0xffff {
+	format4 := parse.NewBinaryWriter([]byte{})
+	if maxRune < 0xffff && cmapWriteFormat4(format4, rs, runeMap) { // format 4 reserves 0xFFFF
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(3)  // encodingID
 		w.WriteUint32(20) // subtableOffset
 		w.WriteUint16(3)  // platformID
 		w.WriteUint16(1)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
+		w.WriteBytes(format4.Bytes())
 	} else {
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(4)  // encodingID
-- 
2.43.0


From 0950dd406cd53d588966fba6d4a6408f373aa996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 043/153] fix: accept as many cmap segments as the library may
 write

---
 sfnt.go      | 2 +-
 sfnt_cmap.go | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 00fc24a..83d2e9d 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -17,7 +17,7 @@ import (
 )
 
 // MaxCmapSegments is the maximum number of cmap segments that will be accepted.
-const MaxCmapSegments = 20000
+const MaxCmapSegments = 0x110000
 
 // Pather is an interface to append a glyph's path to canvas.Path.
 type Pather interface {
diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index cb2c594..0f1e613 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -141,10 +141,9 @@ func (subtable *cmapFormat12) Get(r rune) (uint16, bool) {
 	if r < 0 {
 		return 0, false
 	}
-	for i := 0; i < len(subtable.StartCharCode); i++ {
-		if subtable.StartCharCode[i] <= uint32(r) && uint32(r) <= subtable.EndCharCode[i] {
-			return uint16((uint32(r) - subtable.StartCharCode[i]) + subtable.StartGlyphID[i]), true
-		}
+	i := sort.Search(len(subtable.EndCharCode), func(i int) bool { return uint32(r) <= subtable.EndCharCode[i] })
+	if i < len(subtable.StartCharCode) && subtable.StartCharCode[i] <= uint32(r) {
+		return uint16((uint32(r) - subtable.StartCharCode[i]) + subtable.StartGlyphID[i]), true
 	}
 	return 0, false
 }
@@ -547,7 +546,7 @@ func (sfnt *SFNT) parseCmap() error {
 					return fmt.Errorf("cmap: bad segCount in subtable %d", j)
 				}
 				segCount /= 2
-				if MaxCmapSegments < segCount {
+				if MaxCmapSegments < uint32(segCount) {
 					return fmt.Errorf("cmap: too many segments in subtable %d", j)
 				}
 				_ = rs.ReadUint16() // searchRange
-- 
2.43.0


From 1547ce6e0fb044a9f4398d191501483a3ef4a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 044/153] fix: check the offsets of CFF INDEX data

---
 sfnt_cff.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..37c044a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1214,8 +1214,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
 	if !isCFF2 {
+		if r.Len() < 2 {
+			return nil, fmt.Errorf("bad data")
+		}
 		count = uint32(r.ReadUint16())
 	} else {
+		if r.Len() < 4 {
+			return nil, fmt.Errorf("bad data")
+		}
 		count = r.ReadUint32()
 	}
 	if count == 0 {
@@ -1251,9 +1257,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
-- 
2.43.0


From 66980defae731fc903cefb074f15682e4cf905c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 045/153] fix: check the offsets in CFF DICT data

---
 sfnt_cff.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 37c044a..f7e8dc6 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,6 +96,9 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
+	if topDICT.CharStrings <= 0 || len(b) <= topDICT.CharStrings {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	r.Seek(int64(topDICT.CharStrings), 0)
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
@@ -103,7 +106,9 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	var charset []string
-	if topDICT.Charset < 3 {
+	if topDICT.Charset < 0 || len(b) <= topDICT.Charset {
+		return fmt.Errorf("CFF: bad Charset offset")
+	} else if topDICT.Charset < 3 {
 		if topDICT.Charset != 0 {
 			// 1 is Expert and 2 is ExpertSubset predefined glyph names
 			return fmt.Errorf("CFF: Charset offset of %d not currently supported", topDICT.Charset)
@@ -112,9 +117,6 @@ func (sfnt *SFNT) parseCFF() error {
 		copy(charset, cffStandardStrings)
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
-		if r.Len() == 0 {
-			return fmt.Errorf("CFF: bad Charset")
-		}
 
 		numGlyphs := charStringsINDEX.Len()
 		charset = make([]string, numGlyphs)
@@ -166,7 +168,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || len(b) < topDICT.PrivateOffset || topDICT.PrivateLength < 0 || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -176,7 +178,7 @@ func (sfnt *SFNT) parseCFF() error {
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-topDICT.PrivateOffset <= privateDICT.Subrs {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -2025,8 +2027,10 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
+	if fdArray <= 0 || len(b) <= fdArray {
 		return nil, fmt.Errorf("bad Font INDEX offset")
+	} else if fdSelect <= 0 || len(b) <= fdSelect {
+		return nil, fmt.Errorf("bad FDSelect offset")
 	}
 
 	r := parse.NewBinaryReaderBytes(b)
@@ -2044,7 +2048,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || len(b) < fontDICT.PrivateOffset || fontDICT.PrivateLength < 0 || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
@@ -2054,7 +2058,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.private[i] = privateDICT
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-fontDICT.PrivateOffset <= privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
-- 
2.43.0


From 74c1cde2b9bb4f10a520d6f1b5e2da17476453ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 046/153] fix: check length of CFF charset format 2

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f7e8dc6..ac83211 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -134,7 +134,7 @@ func (sfnt *SFNT) parseCFF() error {
 			}
 		case 1, 2:
 			for i := 1; i < numGlyphs; i++ {
-				if r.Len() < 3 {
+				if r.Len() < 2+int64(format) {
 					return fmt.Errorf("CFF: bad Charset format %d", format)
 				}
 				first := int(r.ReadUint16())
-- 
2.43.0


From 77d7df6a3a53eca2cf17bc229cad3501e2d53350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 047/153] fix: name the glyph of CFF fonts with a single glyph

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index ac83211..d96ff2d 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) parseCFF() error {
 		}
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
+	} else if charStringsINDEX.Len() == 1 {
+		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
 
-- 
2.43.0


From 0e02a3ff58631c37204b428e2dbf2d301a18141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 048/153] fix: handle truncated numbers in CFF DICT data

---
 sfnt_cff.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index d96ff2d..85c06bc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1784,6 +1784,17 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 			if !isCFF2 && 48 <= len(ints) || isCFF2 && 513 <= len(ints) {
 				return fmt.Errorf("too many operands for operator")
 			}
+			n := 0
+			if b0 == 28 {
+				n = 2
+			} else if b0 == 29 {
+				n = 4
+			} else if b0 == 30 || 247 <= b0 {
+				n = 1
+			}
+			if r.Len() < int64(n) {
+				return fmt.Errorf("bad operand")
+			}
 			i, f := parseDICTNumber(b0, r)
 			if math.IsNaN(f) {
 				f = float64(i)
@@ -1807,7 +1818,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1833,6 +1844,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		return 0, math.NaN()
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
-- 
2.43.0


From f6271e3a1b51fac3a7cc0833ea158f70e45b9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 049/153] fix: parse real numbers in CFF DICT data with full
 precision

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 85c06bc..f4eec53 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1833,7 +1833,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				case 0x0E:
 					num = append(num, '-')
 				case 0x0F:
-					f, err := strconv.ParseFloat(string(num), 32)
+					f, err := strconv.ParseFloat(string(num), 64)
 					if err != nil {
 						return 0, math.NaN()
 					}
-- 
2.43.0


From d8258a217b2bc65fcb78e7b2a0c8dce135f78949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 050/153] fix: handle negative string IDs in CFF DICT data

---
 sfnt_cff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f4eec53..a1e1c54 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1159,7 +1159,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
-- 
2.43.0


From fcd7f0da1775b9612ef2ff00229a207188f879a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 051/153] fix: check the data of CFF FDSelect

---
 sfnt_cff.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a1e1c54..5961451 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2018,7 +2018,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2090,12 +2090,21 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	r.Seek(int64(fdSelect), 0)
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
 		}
 	} else if format == 3 {
-		nRanges := r.ReadUint16()
+		if r.Len() < 2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
+		nRanges := uint32(r.ReadUint16())
+		if r.Len() < 3*int64(nRanges)+2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2104,7 +2113,13 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 		fonts.first[nRanges] = uint32(r.ReadUint16())
 	} else if isCFF2 && format == 4 {
+		if r.Len() < 4 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		nRanges := r.ReadUint32()
+		if r.Len() < 6*int64(nRanges)+4 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
@@ -2115,6 +2130,18 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
+	for _, fd := range fonts.fds {
+		if len(fonts.private) <= int(fd) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		}
+	}
+	for i, fd := range fonts.fd {
+		if len(fonts.private) <= int(fd) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		} else if i == 0 && fonts.first[i] != 0 || fonts.first[i+1] <= fonts.first[i] {
+			return nil, fmt.Errorf("FDSelect: bad ranges")
+		}
+	}
 	return fonts, nil
 }
 
-- 
2.43.0


From 493cd0b6f6c2cc16ef32881897a7173286a1a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 052/153] fix: use an empty Local Subrs INDEX for CFF fonts of
 a CID font that have none

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 5961451..e709d03 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2084,6 +2084,8 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			}
 		} else if isCFF2 {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
+		} else {
+			fonts.localSubrs[i] = &cffINDEX{}
 		}
 	}
 
-- 
2.43.0


From 239e0f2a9cb3af8e121aa908debea1f63a53a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 053/153] fix: handle CFF FDSelect without ranges

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e709d03..196a542 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2010,7 +2010,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 			return 0, false
 		}
 		return uint16(t.fds[glyphID]), true
-	} else if len(t.first) == 0 || t.first[len(t.first)-1] <= glyphID {
+	} else if len(t.first) < 2 || t.first[len(t.first)-1] <= glyphID {
 		return 0, false
 	}
 
-- 
2.43.0


From 52d7bd86238831711b432f7f01f78640c13d965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 054/153] fix: handle truncated CFF charstrings

---
 sfnt_cff.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 196a542..d5993b1 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -430,6 +430,17 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
+			n := int64(0)
+			if b0 == 255 {
+				n = 4
+			} else if b0 == cffShortint {
+				n = 2
+			} else if 247 <= b0 {
+				n = 1
+			}
+			if r.Len() < n {
+				return fmt.Errorf("%v: bad operand", table)
+			}
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -497,7 +508,11 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					}
 					stack = stack[:0]
 				}
-				r.ReadBytes(int64((hints + 7) / 8))
+				n := int64((hints + 7) / 8)
+				if r.Len() < n {
+					return fmt.Errorf("%v: bad hint mask", table)
+				}
+				r.ReadBytes(n)
 				stack = stack[:0]
 			case cffCallsubr, cffCallgsubr:
 				// callsubr and callgsubr
-- 
2.43.0


From 808c0ccfda240f0052be859bbbadab14f82bb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 055/153] fix: count the stem hints given by the operands of
 cntrmask

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index d5993b1..4d00a15 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -497,7 +497,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From 751b7c53a88c36584c31d7c6cb3790ec73576acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 056/153] fix: limit the length of CFF charstrings that call
 subroutines exponentially

---
 sfnt_cff.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4d00a15..a8ccf17 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -16,6 +16,10 @@ import (
 
 var ErrBadNumOperands = fmt.Errorf("bad number of operands for operator")
 
+// maxCharStringTokens is the maximum number of operands and operators in a charstring including those of the
+// subroutines it calls.
+const maxCharStringTokens = 1 << 18
+
 type cffTable struct {
 	version int
 	name    string
@@ -418,7 +422,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	hints := 0
 	stack := []int32{}
 	beforeMoveto := true
-	for {
+	for tokens := 0; ; tokens++ {
+		if maxCharStringTokens < tokens {
+			return fmt.Errorf("%v: charstring too complex", table)
+		}
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
 			r = callStack[len(callStack)-1]
-- 
2.43.0


From d47b98da122f6c145b3513d8c95da108fd37e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 057/153] fix: write CFF INDEX data with three byte offsets
 correctly

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a8ccf17..39e11b2 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1302,7 +1302,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1333,7 +1333,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From 6c478bd32e2f9da66d8024f5012672e813f6ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 058/153] fix: write empty items of CFF INDEX data

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 39e11b2..02be2d3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1311,9 +1311,9 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if t.Len() == 0 {
 		return []byte{0, 0}, nil // zero count
-	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
+	} else if t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
 	}
 
-- 
2.43.0


From f514e733b46865826ca8ae8c224e8d6526f2bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 059/153] fix: refer correctly to repeated strings when writing
 CFF

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 02be2d3..65e43d3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1213,7 +1213,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From 6de489fe8ea2fdc9d83e6c2aee3e3659f1ac4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 060/153] fix: write real operands of CFF DICT operators and
 return errors

---
 sfnt_cff.go | 92 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 65e43d3..e95c8cf 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1486,56 +1486,62 @@ func parseTopDICT(b []byte, stringINDEX *cffINDEX) (*cffTopDICT, error) {
 func (t *cffTopDICT) Write(strings *cffINDEX) ([]byte, error) {
 	// TODO: some values have no default and may need to be written always
 	w := parse.NewBinaryWriter([]byte{})
+	var err error
+	write := func(op int, vals ...any) {
+		if err == nil {
+			err = writeDICTEntry(w, op, vals...)
+		}
+	}
 	if t.Version != "" {
-		writeDICTEntry(w, 0, strings.AddSID([]byte(t.Version)))
+		write(0, strings.AddSID([]byte(t.Version)))
 	}
 	if t.Notice != "" {
-		writeDICTEntry(w, 1, strings.AddSID([]byte(t.Notice)))
+		write(1, strings.AddSID([]byte(t.Notice)))
 	}
 	if t.Copyright != "" {
-		writeDICTEntry(w, 256+0, strings.AddSID([]byte(t.Copyright)))
+		write(256+0, strings.AddSID([]byte(t.Copyright)))
 	}
 	if t.FullName != "" {
-		writeDICTEntry(w, 2, strings.AddSID([]byte(t.FullName)))
+		write(2, strings.AddSID([]byte(t.FullName)))
 	}
 	if t.FamilyName != "" {
-		writeDICTEntry(w, 3, strings.AddSID([]byte(t.FamilyName)))
+		write(3, strings.AddSID([]byte(t.FamilyName)))
 	}
 	if t.Weight != "" {
-		writeDICTEntry(w, 4, strings.AddSID([]byte(t.Weight)))
+		write(4, strings.AddSID([]byte(t.Weight)))
 	}
 	if t.IsFixedPitch {
-		writeDICTEntry(w, 256+1, 1)
+		write(256+1, 1)
 	}
 	if t.ItalicAngle != 0.0 {
-		writeDICTEntry(w, 256+2, t.ItalicAngle)
+		write(256+2, t.ItalicAngle)
 	}
 	if t.UnderlinePosition != -100.0 {
-		writeDICTEntry(w, 256+3, t.UnderlinePosition)
+		write(256+3, t.UnderlinePosition)
 	}
 	if t.UnderlineThickness != 50.0 {
-		writeDICTEntry(w, 256+4, t.UnderlineThickness)
+		write(256+4, t.UnderlineThickness)
 	}
 	if t.PaintType != 0 {
-		writeDICTEntry(w, 256+5, t.PaintType)
+		write(256+5, t.PaintType)
 	}
 	if t.CharstringType != 2 {
 		return nil, fmt.Errorf("CharstringType must be 2")
 	}
 	if t.FontMatrix != [6]float64{0.001, 0, 0, 0.001, 0, 0} {
-		writeDICTEntry(w, 256+7, t.FontMatrix[0], t.FontMatrix[1], t.FontMatrix[2], t.FontMatrix[3], t.FontMatrix[4], t.FontMatrix[5])
+		write(256+7, t.FontMatrix[0], t.FontMatrix[1], t.FontMatrix[2], t.FontMatrix[3], t.FontMatrix[4], t.FontMatrix[5])
 	}
 	if t.UniqueID != 0 {
-		writeDICTEntry(w, 13, t.UniqueID)
+		write(13, t.UniqueID)
 	}
 	if t.FontBBox != [4]float64{0, 0, 0, 0} {
-		writeDICTEntry(w, 5, t.FontBBox[0], t.FontBBox[1], t.FontBBox[2], t.FontBBox[3])
+		write(5, t.FontBBox[0], t.FontBBox[1], t.FontBBox[2], t.FontBBox[3])
 	}
 	if t.StrokeWidth != 0.0 {
-		writeDICTEntry(w, 256+8, t.StrokeWidth)
+		write(256+8, t.StrokeWidth)
 	}
 	if 0 < len(t.XUID) {
-		writeDICTEntry(w, 14, t.XUID)
+		write(14, t.XUID)
 	}
 	// not supported
 	//if t.Charset != 0 {
@@ -1552,18 +1558,18 @@ func (t *cffTopDICT) Write(strings *cffINDEX) ([]byte, error) {
 	//	writeDICTEntry(w, 18, t.Private)
 	//}
 	if t.SyntheticBase != 0 {
-		writeDICTEntry(w, 256+20, t.SyntheticBase)
+		write(256+20, t.SyntheticBase)
 	}
 	if t.PostScript != "" {
-		writeDICTEntry(w, 256+21, strings.AddSID([]byte(t.PostScript)))
+		write(256+21, strings.AddSID([]byte(t.PostScript)))
 	}
 	if t.BaseFontName != "" {
-		writeDICTEntry(w, 256+22, strings.AddSID([]byte(t.BaseFontName)))
+		write(256+22, strings.AddSID([]byte(t.BaseFontName)))
 	}
 	if 0 < len(t.BaseFontBlend) {
-		writeDICTEntry(w, 256+23, t.BaseFontBlend)
+		write(256+23, t.BaseFontBlend)
 	}
-	return w.Bytes(), nil
+	return w.Bytes(), err
 }
 
 type cffFontDICT struct {
@@ -1675,61 +1681,67 @@ func parsePrivateDICT(b []byte, isCFF2 bool) (*cffPrivateDICT, error) {
 func (t *cffPrivateDICT) Write() ([]byte, error) {
 	// TODO: some values have no default and may need to be written always
 	w := parse.NewBinaryWriter([]byte{})
+	var err error
+	write := func(op int, vals ...any) {
+		if err == nil {
+			err = writeDICTEntry(w, op, vals...)
+		}
+	}
 	if 0 < len(t.BlueValues) {
-		writeDICTEntry(w, 6, t.BlueValues)
+		write(6, t.BlueValues)
 	}
 	if 0 < len(t.OtherBlues) {
-		writeDICTEntry(w, 7, t.OtherBlues)
+		write(7, t.OtherBlues)
 	}
 	if 0 < len(t.FamilyBlues) {
-		writeDICTEntry(w, 8, t.FamilyBlues)
+		write(8, t.FamilyBlues)
 	}
 	if 0 < len(t.FamilyOtherBlues) {
-		writeDICTEntry(w, 9, t.FamilyOtherBlues)
+		write(9, t.FamilyOtherBlues)
 	}
 	if t.BlueScale != 0.039625 {
-		writeDICTEntry(w, 256+9, t.BlueScale)
+		write(256+9, t.BlueScale)
 	}
 	if t.BlueShift != 7.0 {
-		writeDICTEntry(w, 256+10, t.BlueShift)
+		write(256+10, t.BlueShift)
 	}
 	if t.BlueFuzz != 1.0 {
-		writeDICTEntry(w, 256+11, t.BlueFuzz)
+		write(256+11, t.BlueFuzz)
 	}
 	if t.StdHW != 0.0 {
-		writeDICTEntry(w, 10, t.StdHW)
+		write(10, t.StdHW)
 	}
 	if t.StdVW != 0.0 {
-		writeDICTEntry(w, 11, t.StdVW)
+		write(11, t.StdVW)
 	}
 	if len(t.StemSnapH) != 0 {
-		writeDICTEntry(w, 256+12, t.StemSnapH)
+		write(256+12, t.StemSnapH)
 	}
 	if len(t.StemSnapV) != 0 {
-		writeDICTEntry(w, 256+13, t.StemSnapV)
+		write(256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		write(256+14, t.ForceBold)
 	}
 	if t.LanguageGroup != 0 {
-		writeDICTEntry(w, 256+17, t.LanguageGroup)
+		write(256+17, t.LanguageGroup)
 	}
 	if t.ExpansionFactor != 0.06 {
-		writeDICTEntry(w, 256+18, t.ExpansionFactor)
+		write(256+18, t.ExpansionFactor)
 	}
 	if t.InitialRandomSeed != 0 {
-		writeDICTEntry(w, 256+19, t.InitialRandomSeed)
+		write(256+19, t.InitialRandomSeed)
 	}
 	//if t.Subrs != 0 {
 	//	return nil, fmt.Errorf("Local Subrs not supported")
 	//}
 	if t.DefaultWidthX != 0 {
-		writeDICTEntry(w, 20, t.DefaultWidthX)
+		write(20, t.DefaultWidthX)
 	}
 	if t.NominalWidthX != 0 {
-		writeDICTEntry(w, 21, t.NominalWidthX)
+		write(21, t.NominalWidthX)
 	}
-	return w.Bytes(), nil
+	return w.Bytes(), err
 }
 
 func parseTopDICT2(b []byte) (*cffTopDICT, error) {
@@ -1937,7 +1949,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From 31f66716cf1e9d15d9786ec239e92f78fae95382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 061/153] fix: write ForceBold of the CFF Private DICT

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e95c8cf..356980c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1721,7 +1721,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		write(256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		write(256+14, t.ForceBold)
+		write(256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		write(256+17, t.LanguageGroup)
-- 
2.43.0


From 9ff7d64f151aaec9068e9882e53f1ca703e752d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 062/153] fix: write real numbers in CFF DICT data with full
 precision

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 356980c..e3feffc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1917,7 +1917,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 64)
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
-- 
2.43.0


From 96f164a5d881b7b5bc6f5d343a26ca8eda17c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 063/153] fix: correct offsets for the size of the CFF Top DICT
 INDEX

---
 sfnt_cff.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e3feffc..ba92e21 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2339,7 +2339,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2368,13 +2368,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From e992647718339322230ddda0d45ab9f26bcd38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 064/153] fix: write correct offset to CFF Local Subrs INDEX
 for large Private DICTs and omit it when empty

---
 sfnt_cff.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index ba92e21..db4238a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2313,15 +2313,17 @@ func (cff *cffTable) Write() ([]byte, error) {
 			return nil, fmt.Errorf("Private DICT: %v", err)
 		}
 
-		if len(cff.fonts.localSubrs) != 0 {
+		if len(cff.fonts.localSubrs) != 0 && cff.fonts.localSubrs[0].Len() != 0 {
 			localSubrsINDEX, err = cff.fonts.localSubrs[0].Write()
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %v", err)
 			}
 
-			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			// write offset to Private DICT, the size of the value is included in the value
+			lenPrivateDICT := len(privateDICT) + 1 // key
+			for localSubrsOffset != lenPrivateDICT+cffDICTIntegerSize(localSubrsOffset) {
+				localSubrsOffset = lenPrivateDICT + cffDICTIntegerSize(localSubrsOffset)
+			}
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			writeDICTEntry(wPrivate, 19, localSubrsOffset)
 			privateDICT = wPrivate.Bytes()
-- 
2.43.0


From 08207948b41d9bca0936843de71dd1144f31407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 065/153] fix: size of -32768 in CFF data

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index db4238a..72a7754 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -867,7 +867,7 @@ func cffNumberSize(i int) int {
 		return 1
 	} else if -1131 <= i && i <= -108 || 108 <= i && i <= 1131 {
 		return 2
-	} else if -32767 <= i && i <= 32767 {
+	} else if -32768 <= i && i <= 32767 {
 		return 3
 	}
 	return 5
-- 
2.43.0


From 0f9ae9f5afb20a061f9f588ec18ecde7091d8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:30 +0000
Subject: [PATCH 066/153] fix: return errors for CFF without glyphs or with too
 many strings

---
 sfnt_cff.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 72a7754..4b42bd1 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2215,7 +2215,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 
 	var charset *parse.BinaryWriter
 	numGlyphs := cff.charStrings.Len()
-	if cff.charset != nil {
+	if numGlyphs == 0 {
+		return nil, fmt.Errorf("must contain at least one glyph")
+	} else if cff.charset != nil {
 		// TODO: reorder entries in charString sequentially to make this smaller
 		if len(cff.charset) != numGlyphs {
 			return nil, fmt.Errorf("charset length must match number of glyphs")
@@ -2224,6 +2226,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 		sids := make([]int, numGlyphs-1)
 		for i, name := range cff.charset[1:numGlyphs] {
 			sids[i] = strings.AddSID([]byte(name))
+			if 64999 < sids[i] {
+				return nil, fmt.Errorf("too many strings")
+			}
 		}
 
 		// count number of ranges and max values of nLeft
-- 
2.43.0


From 9f2bb03c2e60270338bb5ae0138655f739fb3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 067/153] fix: update CFF subroutine numbers that change due to
 the bias and numbers in any encoding

---
 sfnt_cff.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4b42bd1..3dd62c9 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -403,7 +403,9 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+// parseCharString calls cb for every operator with its operands and the position of the operand directly before the
+// operator in the charstring or subroutine being read, or -1 if it isn't preceded by an operand.
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32, int64) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -421,6 +423,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 	hints := 0
 	stack := []int32{}
+	posOperand := int64(-1)
 	beforeMoveto := true
 	for tokens := 0; ; tokens++ {
 		if maxCharStringTokens < tokens {
@@ -448,6 +451,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			if r.Len() < n {
 				return fmt.Errorf("%v: bad operand", table)
 			}
+			posOperand = r.Pos() - 1
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -479,9 +483,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
-			if err := cb(r, b0, stack); err != nil {
+			if err := cb(r, b0, stack, posOperand); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
+			posOperand = -1
 
 			// handle hint and subroutine operators, clear stack for most operators
 			switch b0 {
@@ -581,7 +586,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -878,7 +883,8 @@ type cffSubrIndexChange struct {
 	index      int32
 }
 
-// updateSubrs changes all indices to local and global subroutines given the mappings for both
+// updateSubrs changes all indices to local and global subroutines given the mappings for both, indices that are not
+// mapped remain the same
 func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32, localSubrs, globalSubrs *cffINDEX) error {
 	if 1 < len(cff.fonts.localSubrs) {
 		return fmt.Errorf("only single-font CFFs are supported")
@@ -911,7 +917,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32, posOperand int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -923,34 +929,31 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					return err
 				}
 
-				mapped := false
-				var oldBias int32
-				var newIndex, newBias int32
+				newIndex := oldIndex
+				var oldBias, newBias int32
 				if b0 == cffCallsubr {
 					if v, ok := localSubrsMap[oldIndex]; ok {
-						oldBias = oldLocalSubrsBias
 						newIndex = v
-						newBias = localSubrsBias
-						mapped = true
 					}
+					oldBias = oldLocalSubrsBias
+					newBias = localSubrsBias
 				} else {
 					if v, ok := globalSubrsMap[oldIndex]; ok {
-						oldBias = oldGlobalSubrsBias
 						newIndex = v
-						newBias = globalSubrsBias
-						mapped = true
 					}
+					oldBias = oldGlobalSubrsBias
+					newBias = globalSubrsBias
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
-
+				if skipDepth == 0 && oldIndex-oldBias != newIndex-newBias {
+					if posOperand < 0 {
+						return fmt.Errorf("subroutine index must directly precede the operator")
+					}
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
-						start: offset + posNumber,
-						end:   offset + posNumber + lenNumber,
+						start: offset + uint32(posOperand),
+						end:   offset + uint32(r.Pos()) - 1, // -1 as we're past the operator
 						index: newIndex - newBias,
 					})
 				}
@@ -1078,7 +1081,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
-- 
2.43.0


From d02ab3c98de228e8e1b77cedd8d26085f16e3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 068/153] fix: CFF subset shared its subroutines with the
 original and could not have more glyphs

---
 sfnt_cff.go    | 11 ++++++-----
 sfnt_subset.go |  9 +++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3dd62c9..c61325f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -888,8 +888,6 @@ type cffSubrIndexChange struct {
 func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32, localSubrs, globalSubrs *cffINDEX) error {
 	if 1 < len(cff.fonts.localSubrs) {
 		return fmt.Errorf("only single-font CFFs are supported")
-	} else if len(localSubrsMap) == 0 && len(globalSubrsMap) == 0 {
-		return nil
 	}
 
 	oldLocalSubrsLen := 0
@@ -1059,9 +1057,12 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	cff.globalSubrs = globalSubrs
 
 	// copy pointers in fonts
-	fonts := *cff.fonts
-	cff.fonts = &fonts
-	cff.fonts.localSubrs = []*cffINDEX{localSubrs}
+	cff.fonts = &cffFontINDEX{
+		private:    cff.fonts.private,
+		localSubrs: []*cffINDEX{localSubrs},
+		first:      []uint32{0, uint32(cff.charStrings.Len())},
+		fd:         []uint16{0},
+	}
 	return nil
 }
 
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 270316c..b89631f 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -167,6 +167,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			}
 		case "CFF ":
 			cff := *sfntOld.CFF
+			if 1 < len(cff.fonts.private) {
+				return nil, fmt.Errorf("CFF: only single-font CFFs are supported")
+			}
+			cff.fonts = &cffFontINDEX{
+				private:    cff.fonts.private,
+				localSubrs: cff.fonts.localSubrs,
+				first:      []uint32{0, uint32(len(glyphIDs))},
+				fd:         []uint16{0},
+			}
 			cff.charStrings = &cffINDEX{}
 			for _, glyphID := range glyphIDs {
 				if glyphID == 0 {
-- 
2.43.0


From bc1f83cda3b4bf476bd7b7fb1fd6ad84662b3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 069/153] fix: SetGlyphNames for CFF aliased the names, failed
 for another number of names, and changed the font on failure

---
 sfnt_cff.go    |  2 +-
 sfnt_subset.go | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c61325f..8bcc044 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -290,7 +290,7 @@ func (cff *cffTable) SetGlyphName(glyphID uint16, name string) {
 }
 
 func (cff *cffTable) SetGlyphNames(names []string) {
-	cff.charset = names
+	cff.charset = append([]string{}, names...)
 }
 
 const (
diff --git a/sfnt_subset.go b/sfnt_subset.go
index b89631f..e36b878 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -494,25 +494,29 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
-		same := false
-		if len(sfnt.CFF.charset) == len(names) {
-			same = true
-			for i, name := range sfnt.CFF.charset {
-				if name != names[i] {
-					same = false
-					break
-				}
-			}
+		charset := make([]string, sfnt.CFF.charStrings.Len())
+		for i := copy(charset, names); i < len(charset); i++ {
+			charset[i] = ".notdef"
+		}
+		if 0 < len(charset) {
+			charset[0] = ".notdef" // cannot be changed
+		}
+
+		same := len(sfnt.CFF.charset) == len(charset)
+		for i := 0; same && i < len(charset); i++ {
+			same = sfnt.CFF.charset[i] == charset[i]
 		}
 		if same {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
-		b, err := sfnt.CFF.Write()
+		cff := *sfnt.CFF
+		cff.charset = charset
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
 		return nil
 	}
-- 
2.43.0


From 748c7ccb23c4cf762822668c295e55c8b6e000c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 070/153] fix: bounds of CFF glyphs always included the origin
 and excluded fractions of negative coordinates

---
 sfnt.go      |  2 +-
 sfnt_util.go | 30 +++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 83d2e9d..c589e36 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -218,7 +218,7 @@ func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
 	} else if sfnt.IsCFF {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
-			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
+			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
 		}
 	}
 	return 0, 0, 0, 0
diff --git a/sfnt_util.go b/sfnt_util.go
index fd2ef90..aa8ab78 100644
--- a/sfnt_util.go
+++ b/sfnt_util.go
@@ -4,34 +4,38 @@ import "math"
 
 type bboxPather struct {
 	XMin, XMax, YMin, YMax float64
+	valid                  bool // has any points
 }
 
-func (p *bboxPather) MoveTo(x float64, y float64) {
+func (p *bboxPather) add(x float64, y float64) {
+	if !p.valid {
+		p.XMin, p.XMax, p.YMin, p.YMax = x, x, y, y
+		p.valid = true
+		return
+	}
 	p.XMin = math.Min(p.XMin, x)
 	p.XMax = math.Max(p.XMax, x)
 	p.YMin = math.Min(p.YMin, y)
 	p.YMax = math.Max(p.YMax, y)
 }
 
+func (p *bboxPather) MoveTo(x float64, y float64) {
+	p.add(x, y)
+}
+
 func (p *bboxPather) LineTo(x float64, y float64) {
-	p.XMin = math.Min(p.XMin, x)
-	p.XMax = math.Max(p.XMax, x)
-	p.YMin = math.Min(p.YMin, y)
-	p.YMax = math.Max(p.YMax, y)
+	p.add(x, y)
 }
 
 func (p *bboxPather) QuadTo(cpx float64, cpy float64, x float64, y float64) {
-	p.XMin = math.Min(math.Min(p.XMin, cpx), x)
-	p.XMax = math.Max(math.Max(p.XMax, cpx), x)
-	p.YMin = math.Min(math.Min(p.YMin, cpy), y)
-	p.YMax = math.Max(math.Max(p.YMax, cpy), y)
+	p.add(cpx, cpy)
+	p.add(x, y)
 }
 
 func (p *bboxPather) CubeTo(cpx1 float64, cpy1 float64, cpx2 float64, cpy2 float64, x float64, y float64) {
-	p.XMin = math.Min(math.Min(math.Min(p.XMin, cpx1), cpx2), x)
-	p.XMax = math.Max(math.Max(math.Max(p.XMax, cpx1), cpx2), x)
-	p.YMin = math.Min(math.Min(math.Min(p.YMin, cpy1), cpy2), y)
-	p.YMax = math.Max(math.Max(math.Max(p.YMax, cpy1), cpy2), y)
+	p.add(cpx1, cpy1)
+	p.add(cpx2, cpy2)
+	p.add(x, y)
 }
 
 func (p *bboxPather) Close() {
-- 
2.43.0


From d85734a8365215b0af9fa608b3983e7d4c91af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 071/153] fix: head: dates after the year 2196 overflowed

---
 sfnt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index c589e36..e5e10c8 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -583,8 +583,9 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() // time.Duration is too small
+	sfnt.Head.Created = time.Unix(epoch+int64(created), 0).UTC()
+	sfnt.Head.Modified = time.Unix(epoch+int64(modified), 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From cafc358338057367d889501584af0d8757cc8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 072/153] fix: ParseEmbeddedSFNT always failed for CFF fonts

---
 sfnt.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index e5e10c8..ec17501 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -406,20 +406,20 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables, the head and maxp tables are optional for embedded CFF fonts
+	if _, ok := tables["head"]; ok || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
+	if _, ok := tables["maxp"]; ok || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else if err := sfnt.parseCFF(); err != nil {
 		return nil, err
+	} else {
+		sfnt.Maxp = &maxpTable{NumGlyphs: uint16(sfnt.CFF.charStrings.Len())}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
-- 
2.43.0


From b21207d0e39c56f60e2383130f8cc86282c60ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 073/153] fix: Subset wrote to the passed glyphIDs and tables

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index e36b878..c57b17a 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// don't write to the passed slice
+	glyphIDs = append([]uint16{}, glyphIDs...)
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -94,7 +97,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...)
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From f139c80c1c4fadf02821a75116a4dc538d4b67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 074/153] fix: Subset panicked for missing glyphs or without
 glyphs

---
 sfnt_subset.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index c57b17a..e98111e 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	if len(glyphIDs) == 0 {
+		return nil, fmt.Errorf("no glyphs to keep")
+	}
+	for _, glyphID := range glyphIDs {
+		if sfnt.NumGlyphs() <= glyphID {
+			return nil, fmt.Errorf("bad glyphID %v", glyphID)
+		}
+	}
+
 	// don't write to the passed slice
 	glyphIDs = append([]uint16{}, glyphIDs...)
 
-- 
2.43.0


From 8fa34089951a2bacc726db91bbb2549769363c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 075/153] fix: queries and Subset panicked for fonts with few
 tables

---
 sfnt.go        | 14 ++++++++++----
 sfnt_subset.go | 25 +++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index ec17501..916f77a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -113,6 +113,9 @@ func (sfnt *SFNT) GlyphToUnicode(glyphID uint16) []rune {
 // GlyphName returns the name of the glyph. It returns an empty string when no name exists.
 func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return ""
+		}
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
 	} else if sfnt.Post == nil {
@@ -124,6 +127,9 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 // FindGlyphName returns the glyphID for a given glyph name. When the name is not defined it returns 0.
 func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return 0
+		}
 		for glyphID, glyphName := range sfnt.CFF.charset {
 			if name == glyphName {
 				return uint16(glyphID)
@@ -184,9 +190,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 
 // GlyphPath draws the glyph's contour as a path to the pather interface. It will use the specified ppem (pixels-per-EM) for hinting purposes. The path is draws to the (x,y) coordinate and scaled using the given scale factor.
 func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64, hinting Hinting) error {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		return sfnt.Glyf.ToPath(p, glyphID, ppem, x, y, scale, hinting)
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		return sfnt.CFF.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	}
 	return fmt.Errorf("only TrueType and CFF are supported")
@@ -210,12 +216,12 @@ func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 
 // GlyphBounds returns the bounding rectangle (xmin,ymin,xmax,ymax) of the glyph.
 func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		contour, err := sfnt.Glyf.Contour(glyphID)
 		if err == nil {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
 			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
diff --git a/sfnt_subset.go b/sfnt_subset.go
index e98111e..22cf453 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,7 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
-	if len(glyphIDs) == 0 {
+	if sfnt.IsTrueType && (sfnt.Glyf == nil || sfnt.Loca == nil) || sfnt.IsCFF && sfnt.CFF == nil {
+		return nil, fmt.Errorf("font has no glyph outlines")
+	} else if len(glyphIDs) == 0 {
 		return nil, fmt.Errorf("no glyphs to keep")
 	}
 	for _, glyphID := range glyphIDs {
@@ -116,7 +118,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		advances[subsetGlyphID] = sfnt.GlyphAdvance(glyphID)
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
@@ -157,6 +159,25 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		if !ok {
 			continue
 		}
+		switch tag {
+		case "cmap":
+			ok = sfntOld.Cmap != nil
+		case "head":
+			ok = sfntOld.Head != nil
+		case "hhea":
+			ok = sfntOld.Hhea != nil
+		case "hmtx":
+			ok = sfntOld.Hmtx != nil
+		case "kern":
+			ok = sfntOld.Kern != nil
+		case "OS/2":
+			ok = sfntOld.OS2 != nil
+		case "post":
+			ok = sfntOld.Post != nil
+		}
+		if !ok {
+			continue // table was not parsed
+		}
 
 		switch tag {
 		// TODO: GDEF, GPOS, GSUB
-- 
2.43.0


From 27b3d79adfd6440c801c0bd78c5989bb057858ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 076/153] fix: Subset emptied .notdef even when used as a
 component

---
 sfnt_subset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 22cf453..ef61a8a 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -48,6 +48,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		glyphMap[glyphID] = uint16(subsetGlyphID)
 	}
 
+	keepNotdef := false // set if .notdef is a component of another glyph
 	if sfnt.IsTrueType {
 		// add dependencies for composite glyphs add the end
 		origLen := len(glyphIDs)
@@ -60,6 +61,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				return nil, err
 			}
 			for _, glyphID := range deps[1:] {
+				if glyphID == 0 {
+					keepNotdef = true
+				}
 				if _, ok := glyphMap[glyphID]; !ok {
 					glyphMap[glyphID] = uint16(len(glyphIDs))
 					glyphIDs = append(glyphIDs, glyphID)
@@ -246,7 +250,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		case "glyf":
 			w := parse.NewBinaryWriter([]byte{})
 			for i, glyphID := range glyphIDs {
-				if glyphID == 0 {
+				if glyphID == 0 && !keepNotdef {
 					// empty .notdef
 					glyfOffsets[i+1] = uint32(w.Len())
 					continue
-- 
2.43.0


From 1e68da65e3613750c582726e452fa281aa63f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 077/153] fix: Subset changed the OS/2 table of the original,
 had empty Unicode ranges, and mixed up cmap subtables

---
 sfnt_subset.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index ef61a8a..ab95485 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -119,12 +119,25 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
-	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
 		advances[subsetGlyphID] = sfnt.GlyphAdvance(glyphID)
 	}
 
+	var rs []rune // for cmap and OS/2
+	runeMap := map[rune]uint16{}
+	if sfnt.Cmap != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			for _, r := range sfnt.Cmap.ToUnicode(glyphID) {
+				// character map subtables may disagree
+				if glyphID != 0 && sfnt.Cmap.Get(r) == glyphID {
+					rs = append(rs, r)
+					runeMap[r] = uint16(subsetGlyphID)
+				}
+			}
+		}
+	}
+
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
 	// It is recommended that for CFF fonts the numberOfHMetrics must be equal to the number
 	// of glyphs, but emperically there is no difference.
@@ -187,17 +200,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		// TODO: GDEF, GPOS, GSUB
 		// TODO; cvt, fpgm, prep
 		case "cmap":
-			rs := make([]rune, 0, len(glyphIDs))
-			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
-			for subsetGlyphID, glyphID := range glyphIDs {
-				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
-					runeMap[r] = uint16(subsetGlyphID)
-				}
-			}
-			ulUnicodeRange = os2UlUnicodeRange(rs)
-
 			sfnt.Tables[tag] = cmapWrite(rs, runeMap)
 			if err := sfnt.parseCmap(); err != nil {
 				return nil, err
@@ -489,7 +491,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			ulUnicodeRange := os2UlUnicodeRange(rs)
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 7dc2aefde02646358a1bd3b3886f047bd59488b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 078/153] fix: OS/2 Unicode ranges set the wrong bits

---
 sfnt_os2.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..d03ee25 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,10 +166,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
@@ -356,16 +356,16 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31C0 {
+		return -1
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
 		return -1
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
 		return -1
 	} else if r < 0x4E00 {
@@ -400,9 +400,9 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
-- 
2.43.0


From 6f104f0763cceb6cfd5a5899e4e989550d9ec97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 079/153] fix: Subset kept the first and last character index
 of the original

---
 sfnt_subset.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index ab95485..c42582e 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -498,6 +498,24 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
 			sfnt.OS2.UlUnicodeRange4 = ulUnicodeRange[3]
+			if 0 < len(rs) {
+				minRune, maxRune := rs[0], rs[0]
+				for _, r := range rs[1:] {
+					if r < minRune {
+						minRune = r
+					} else if maxRune < r {
+						maxRune = r
+					}
+				}
+				if 0xFFFF < minRune {
+					minRune = 0xFFFF
+				}
+				if 0xFFFF < maxRune {
+					maxRune = 0xFFFF
+				}
+				sfnt.OS2.UsFirstCharIndex = uint16(minRune)
+				sfnt.OS2.UsLastCharIndex = uint16(maxRune)
+			}
 
 			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["OS/2"])))
 			w.WriteBytes(table[:42])
@@ -505,7 +523,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange2)
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange3)
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange4)
-			w.WriteBytes(table[58:])
+			w.WriteBytes(table[58:64])
+			w.WriteUint16(sfnt.OS2.UsFirstCharIndex)
+			w.WriteUint16(sfnt.OS2.UsLastCharIndex)
+			w.WriteBytes(table[68:])
 			sfnt.Tables[tag] = w.Bytes()
 		case "post":
 			w := parse.NewBinaryWriter(make([]byte, 0, 32))
-- 
2.43.0


From 3b1befcf85d800c171b238cbfb4083f9705b62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 080/153] fix: Subset copied the vertical metrics of all glyphs

---
 sfnt_subset.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index c42582e..1377f05 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -150,6 +150,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		numberOfHMetrics--
 	}
 	//}
+	numberOfVMetrics := uint16(len(glyphIDs)) // for vhea and vmtx
 
 	// copy to new SFNT
 	sfntOld := sfnt
@@ -187,6 +188,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			ok = sfntOld.Hmtx != nil
 		case "kern":
 			ok = sfntOld.Kern != nil
+		case "vhea", "vmtx":
+			ok = sfntOld.Vhea != nil && sfntOld.Vmtx != nil
 		case "OS/2":
 			ok = sfntOld.OS2 != nil
 		case "post":
@@ -544,6 +547,27 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			w := parse.NewBinaryWriter(make([]byte, 0, len(table)))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, len(glyphIDs))
+			w := parse.NewBinaryWriter(make([]byte, 0, 4*len(glyphIDs)))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = sfntOld.Vmtx.Advance(glyphID)
+				sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = sfntOld.Vmtx.TopSideBearing(glyphID)
+				w.WriteUint16(sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight)
+				w.WriteInt16(sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 6e5c1e7a2552dbda2d22515a5dfe89f1126a39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 081/153] fix: Subset to tables without maxp panicked

---
 sfnt_subset.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1377f05..f745e8b 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -164,14 +164,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 
 	// copy and rewrite tables
-	for _, tag := range tags {
-		if tag == "maxp" {
-			maxp := *sfntOld.Maxp
-			sfnt.Maxp = &maxp
-			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
-			break
-		}
-	}
+	maxp := *sfntOld.Maxp // needed to parse other tables
+	sfnt.Maxp = &maxp
+	sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
 		if !ok {
-- 
2.43.0


From d286e9ec38741cf0a9dfbf3b6f6674fd09ca44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 082/153] fix: Subset dropped kerning pairs of zero that
 override other subtables

---
 sfnt_subset.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index f745e8b..f710225 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -425,25 +425,29 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			kern := kernTable{
 				Subtables: []kernFormat0{},
 			}
+			subsetGlyphIDs := map[uint16][]uint16{}
+			for subsetGlyphID, glyphID := range glyphIDs {
+				if glyphID != 0 {
+					subsetGlyphIDs[glyphID] = append(subsetGlyphIDs[glyphID], uint16(subsetGlyphID))
+				}
+			}
 			for _, subtable := range sfntOld.Kern.Subtables {
 				pairs := []kernPair{}
-				for l, lOrig := range glyphIDs {
-					if lOrig == 0 {
-						continue
-					}
-					for r, rOrig := range glyphIDs {
-						if rOrig == 0 {
-							continue
-						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+				for _, pair := range subtable.Pairs {
+					for _, l := range subsetGlyphIDs[uint16(pair.Key>>16)] {
+						for _, r := range subsetGlyphIDs[uint16(pair.Key)] {
+							// keep zeros, they may override the values of preceding subtables
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
-								Value: value,
+								Value: pair.Value,
 							})
 						}
 					}
 				}
 				if 0 < len(pairs) {
+					sort.SliceStable(pairs, func(i, j int) bool {
+						return pairs[i].Key < pairs[j].Key
+					})
 					kern.Subtables = append(kern.Subtables, kernFormat0{
 						Coverage: subtable.Coverage,
 						Pairs:    pairs,
-- 
2.43.0


From c7bcf3461f86796a0679cf9d0bedd5f19f94dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 083/153] fix: Merge wrote bad glyf offsets, changed input
 tables, and left a partly merged font on failure

---
 sfnt_merge.go | 200 ++++++++++++++++++++++++++++----------------------
 1 file changed, 114 insertions(+), 86 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..b1e181c 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -22,26 +22,49 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return nil // sfnt2 only contains .notdef
 	}
 
+	// work on a copy so that the font remains unchanged on failure, and make sure not to write to the original tables
+	sfntOrig := sfnt
+	sfntCopy := *sfnt
+	sfnt = &sfntCopy
+	sfnt.Tables = make(map[string][]byte, len(sfntOrig.Tables))
+	for tag, table := range sfntOrig.Tables {
+		sfnt.Tables[tag] = append([]byte{}, table...)
+	}
+	if sfnt.Head != nil {
+		head := *sfnt.Head
+		sfnt.Head = &head
+	}
+	if sfnt.Hhea != nil {
+		hhea := *sfnt.Hhea
+		sfnt.Hhea = &hhea
+	}
+	if sfnt.OS2 != nil {
+		os2 := *sfnt.OS2
+		sfnt.OS2 = &os2
+	}
+	maxp := *sfnt.Maxp
+	sfnt.Maxp = &maxp
+
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
+	sfnt.Maxp.NumGlyphs = numGlyphs
+	if !sfnt.IsCFF {
+		sfnt.Maxp.MaxPoints = max(sfnt.Maxp.MaxPoints, sfnt2.Maxp.MaxPoints)
+		sfnt.Maxp.MaxContours = max(sfnt.Maxp.MaxContours, sfnt2.Maxp.MaxContours)
+		sfnt.Maxp.MaxCompositePoints = max(sfnt.Maxp.MaxCompositePoints, sfnt2.Maxp.MaxCompositePoints)
+		sfnt.Maxp.MaxCompositeContours = max(sfnt.Maxp.MaxCompositeContours, sfnt2.Maxp.MaxCompositeContours)
+		sfnt.Maxp.MaxZones = max(sfnt.Maxp.MaxZones, sfnt2.Maxp.MaxZones)
+		sfnt.Maxp.MaxTwilightPoints = max(sfnt.Maxp.MaxTwilightPoints, sfnt2.Maxp.MaxTwilightPoints)
+		sfnt.Maxp.MaxStorage = max(sfnt.Maxp.MaxStorage, sfnt2.Maxp.MaxStorage)
+		sfnt.Maxp.MaxFunctionDefs = max(sfnt.Maxp.MaxFunctionDefs, sfnt2.Maxp.MaxFunctionDefs)
+		sfnt.Maxp.MaxInstructionDefs = max(sfnt.Maxp.MaxInstructionDefs, sfnt2.Maxp.MaxInstructionDefs)
+		sfnt.Maxp.MaxStackElements = max(sfnt.Maxp.MaxStackElements, sfnt2.Maxp.MaxStackElements)
+		sfnt.Maxp.MaxSizeOfInstructions = max(sfnt.Maxp.MaxSizeOfInstructions, sfnt2.Maxp.MaxSizeOfInstructions)
+		sfnt.Maxp.MaxComponentElements = max(sfnt.Maxp.MaxComponentElements, sfnt2.Maxp.MaxComponentElements)
+		sfnt.Maxp.MaxComponentDepth = max(sfnt.Maxp.MaxComponentDepth, sfnt2.Maxp.MaxComponentDepth)
+	}
 	if _, ok := sfnt.Tables["maxp"]; ok {
-		sfnt.Maxp.NumGlyphs = numGlyphs
-		if !sfnt.IsCFF {
-			sfnt.Maxp.MaxPoints = max(sfnt.Maxp.MaxPoints, sfnt2.Maxp.MaxPoints)
-			sfnt.Maxp.MaxContours = max(sfnt.Maxp.MaxContours, sfnt2.Maxp.MaxContours)
-			sfnt.Maxp.MaxCompositePoints = max(sfnt.Maxp.MaxCompositePoints, sfnt2.Maxp.MaxCompositePoints)
-			sfnt.Maxp.MaxCompositeContours = max(sfnt.Maxp.MaxCompositeContours, sfnt2.Maxp.MaxCompositeContours)
-			sfnt.Maxp.MaxZones = max(sfnt.Maxp.MaxZones, sfnt2.Maxp.MaxZones)
-			sfnt.Maxp.MaxTwilightPoints = max(sfnt.Maxp.MaxTwilightPoints, sfnt2.Maxp.MaxTwilightPoints)
-			sfnt.Maxp.MaxStorage = max(sfnt.Maxp.MaxStorage, sfnt2.Maxp.MaxStorage)
-			sfnt.Maxp.MaxFunctionDefs = max(sfnt.Maxp.MaxFunctionDefs, sfnt2.Maxp.MaxFunctionDefs)
-			sfnt.Maxp.MaxInstructionDefs = max(sfnt.Maxp.MaxInstructionDefs, sfnt2.Maxp.MaxInstructionDefs)
-			sfnt.Maxp.MaxStackElements = max(sfnt.Maxp.MaxStackElements, sfnt2.Maxp.MaxStackElements)
-			sfnt.Maxp.MaxSizeOfInstructions = max(sfnt.Maxp.MaxSizeOfInstructions, sfnt2.Maxp.MaxSizeOfInstructions)
-			sfnt.Maxp.MaxComponentElements = max(sfnt.Maxp.MaxComponentElements, sfnt2.Maxp.MaxComponentElements)
-			sfnt.Maxp.MaxComponentDepth = max(sfnt.Maxp.MaxComponentDepth, sfnt2.Maxp.MaxComponentDepth)
-		}
 		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
 	}
 
@@ -49,86 +72,85 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
 		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
-		if !ok1 || !ok2 || !ok3 || !ok4 {
-			return fmt.Errorf("glyf of loca tables missing")
+		if !ok1 || !ok2 || !ok3 || !ok4 || sfnt.Glyf == nil || sfnt2.Glyf == nil {
+			return fmt.Errorf("glyf or loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
-
-		// update glyphIDs of composite glyphs and make sure not to write to glyf2
-		startGlyf := uint32(len(glyf))
-		glyf = append(glyf, glyf2...)
-		for glyphID := 1; glyphID < int(sfnt2.NumGlyphs()); glyphID++ {
-			// +1 to skip .notdef
-			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
-				start, _ := sfnt2.Loca.Get(uint16(glyphID))
-				start += startGlyf - firstGlyf
-
-				offset := uint32(10)
-				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+		// write all glyphs aligned to even bytes for the loca short format
+		w := parse.NewBinaryWriter(make([]byte, 0, len(glyf)+len(glyf2)))
+		glyfOffsets := make([]uint32, 1, int(numGlyphs)+1)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			start := uint32(w.Len())
+			if glyphID < int(origNumGlyphs) {
+				b := sfnt.Glyf.Get(uint16(glyphID))
+				if b == nil {
+					return fmt.Errorf("glyf: bad glyphID %v", glyphID)
+				}
+				w.WriteBytes(b)
+			} else {
+				glyphID2 := uint16(1+glyphID) - origNumGlyphs // +1 to skip .notdef
+				deps, err := sfnt2.Glyf.Dependencies(glyphID2)
+				if err != nil {
+					return err
+				}
+				w.WriteBytes(sfnt2.Glyf.Get(glyphID2))
+				if sfnt2.Glyf.IsComposite(glyphID2) {
+					for _, dep := range deps {
+						if dep == 0 {
+							return fmt.Errorf("glyf: glyphID %v uses .notdef, which cannot be merged", glyphID2)
+						}
+					}
 
-					length, more := glyfCompositeLength(flags)
-					if !more {
-						break
+					// update glyphIDs of composite glyphs
+					b := w.Bytes()[start:]
+					offset := uint32(10)
+					for {
+						flags := binary.BigEndian.Uint16(b[offset:])
+						subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
+						binary.BigEndian.PutUint16(b[offset+2:], origNumGlyphs+subGlyphID-1)
+
+						length, more := glyfCompositeLength(flags)
+						if !more {
+							break
+						}
+						offset += length
 					}
-					offset += length
 				}
 			}
-		}
-		sfnt.Tables["glyf"] = glyf
-		sfnt.Glyf.data = glyf
-
-		if _, ok := sfnt.Tables["loca"]; ok {
-			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
-				indexToLocFormat = 0 // short format
+			if w.Len()%2 == 1 {
+				w.WriteByte(0)
 			}
-			n := 2 * (numGlyphs + 1)
-			if indexToLocFormat == 1 {
-				n *= 2
-			}
-
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
-				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
-				sfnt.Head.IndexToLocFormat = indexToLocFormat
-			}
-
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
-				}
+			glyfOffsets = append(glyfOffsets, uint32(w.Len()))
+		}
+		glyf = w.Bytes()
 
-				if indexToLocFormat == 0 {
-					// short format
-					w.WriteUint16(uint16(offset / 2))
-				} else {
-					// long format
-					w.WriteUint32(offset)
-				}
+		indexToLocFormat := int16(1) // long format
+		if len(glyf) <= math.MaxUint16 {
+			indexToLocFormat = 0 // short format
+		}
+		w = parse.NewBinaryWriter(make([]byte, 0, 4*len(glyfOffsets)))
+		for _, offset := range glyfOffsets {
+			if indexToLocFormat == 0 {
+				w.WriteUint16(uint16(offset / 2))
+			} else {
+				w.WriteUint32(offset)
 			}
-
-			sfnt.Tables["loca"] = w.Bytes()
-			sfnt.Loca.Format = indexToLocFormat
-			sfnt.Loca.data = w.Bytes()
+		}
+		if table, ok := sfnt.Tables["head"]; ok && sfnt.Head != nil {
+			binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
+			sfnt.Head.IndexToLocFormat = indexToLocFormat
+		}
+		sfnt.Tables["loca"] = w.Bytes()
+		sfnt.Loca = &locaTable{
+			Format: indexToLocFormat,
+			data:   w.Bytes(),
+		}
+		sfnt.Tables["glyf"] = glyf
+		sfnt.Glyf = &glyfTable{
+			data: glyf,
+			loca: sfnt.Loca,
 		}
 
 		if _, ok := sfnt.Tables["kern"]; ok {
@@ -401,5 +423,11 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 		sfnt.Tables["post"] = b
 	}
+
+	sfnt.Length = 12
+	for _, table := range sfnt.Tables {
+		sfnt.Length += 16 + (uint32(len(table))+3)&^3 // table record and padded table
+	}
+	*sfntOrig = *sfnt
 	return nil
 }
-- 
2.43.0


From e6b726a6546f0d40102d32bd99578ddd82c61051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 084/153] fix: Merge mixed up kerning pairs with .notdef, and
 lost or panicked for kern tables in one of both fonts

---
 sfnt_merge.go | 58 +++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index b1e181c..ae2288b 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -152,31 +152,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			data: glyf,
 			loca: sfnt.Loca,
 		}
-
-		if _, ok := sfnt.Tables["kern"]; ok {
-			// update glyph IDs in kern table
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
-						continue
-					}
-					pairs[i] = kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
-					}
-				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
-			}
-			if 0 < len(sfnt.Kern.Subtables) {
-				sfnt.Tables["kern"] = sfnt.Kern.Write()
-			}
-		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
 		// find new number of subroutines, which may change the index encoding / bias
 		localSubrsLen, globalSubrsLen := 0, 0 // new length
@@ -287,6 +262,39 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
+	if sfnt2.Kern != nil {
+		// update glyph IDs in kern table
+		kern := &kernTable{}
+		if sfnt.Kern != nil {
+			kern.Subtables = append(kern.Subtables, sfnt.Kern.Subtables...)
+		}
+		for _, subtable := range sfnt2.Kern.Subtables {
+			offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				l, r := uint16(pair.Key>>16), uint16(pair.Key)
+				if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
+					// skip .notdef and missing glyphs
+					continue
+				}
+				pairs = append(pairs, kernPair{
+					Key:   offset + pair.Key,
+					Value: pair.Value,
+				})
+			}
+			if 0 < len(pairs) {
+				kern.Subtables = append(kern.Subtables, kernFormat0{
+					Coverage: subtable.Coverage,
+					Pairs:    pairs,
+				})
+			}
+		}
+		if 0 < len(kern.Subtables) {
+			sfnt.Kern = kern
+			sfnt.Tables["kern"] = kern.Write()
+		}
+	}
+
 	if _, ok := sfnt.Tables["hmtx"]; ok {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
-- 
2.43.0


From 889e51f5c98c27f9e03f102931a2ee7c677ccf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 085/153] fix: Merge mixed up subroutines of CFF fonts and
 wrote to the merging font

---
 sfnt_merge.go | 136 ++++++++++++++++++--------------------------------
 1 file changed, 49 insertions(+), 87 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index ae2288b..53ebf6e 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -153,113 +153,75 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			loca: sfnt.Loca,
 		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
-		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
-		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
-		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
-		}
-		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
-			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
-		}
-		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
-		}
-		if 0 < sfnt2.CFF.globalSubrs.Len() {
-			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
+		if sfnt.CFF == nil || sfnt2.CFF == nil || sfnt.CFF.version != 1 || sfnt2.CFF.version != 1 {
+			return fmt.Errorf("merging CFF2 fonts not supported")
+		} else if len(sfnt.CFF.fonts.localSubrs) != 1 || len(sfnt2.CFF.fonts.localSubrs) != 1 {
+			return fmt.Errorf("CFF: only single-font CFFs are supported")
+		} else if sfnt.CFF.charStrings.Len() != int(origNumGlyphs) || sfnt2.CFF.charStrings.Len() != int(sfnt2.NumGlyphs()) {
+			return fmt.Errorf("CFF: bad number of glyphs")
 		}
 
-		// update index encoding (identity mapping) for the original glyphs
-		var localSubrsMap map[int32]int32  // old to new index
-		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
-				localSubrsMap[int32(i)] = int32(i)
-			}
-		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
-				globalSubrsMap[int32(i)] = int32(i)
-			}
-		}
-		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
-			return err
-		}
+		// combine subroutines, those of the merging font come last
+		localSubrs := sfnt.CFF.fonts.localSubrs[0].Copy()
+		localSubrs.Extend(sfnt2.CFF.fonts.localSubrs[0])
+		globalSubrs := sfnt.CFF.globalSubrs.Copy()
+		globalSubrs.Extend(sfnt2.CFF.globalSubrs)
 
-		// update indices and index encoding for the merging glyphs
-		var localSubrsMap2 map[int32]int32  // old to new index
-		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
-			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
-			for i := 0; i < localSubrs2.Len(); i++ {
-				localSubrsMap2[int32(i)] = int32(offset + i)
-			}
-		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
-			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
-			for i := 0; i < globalSubrs2.Len(); i++ {
-				globalSubrsMap2[int32(i)] = int32(offset + i)
-			}
+		// copy to keep originals untouched
+		cff := *sfnt.CFF
+		cff.charStrings = sfnt.CFF.charStrings.Copy()
+		cff2 := *sfnt2.CFF
+		cff2.charStrings = &cffINDEX{}
+		for glyphID := 1; glyphID < int(sfnt2.NumGlyphs()); glyphID++ {
+			cff2.charStrings.Add(sfnt2.CFF.charStrings.Get(uint16(glyphID))) // skips .notdef
 		}
 
-		// copy to keep original untouched
-		cff2 := &cffTable{
-			version:     sfnt2.CFF.version,
-			charStrings: sfnt2.CFF.charStrings.Copy(),
-			globalSubrs: sfnt2.CFF.globalSubrs,
-			fonts:       sfnt2.CFF.fonts,
+		// update subroutine index encoding for the original glyphs
+		if err := cff.updateSubrs(nil, nil, localSubrs, globalSubrs); err != nil {
+			return err
 		}
 
-		// remove .notdef
-		offset := cff2.charStrings.offset[1]
-		cff2.charStrings.offset = cff2.charStrings.offset[1:]
-		cff2.charStrings.data = cff2.charStrings.data[offset:]
-		for i := range cff2.charStrings.offset {
-			cff2.charStrings.offset[i] -= offset
+		// update subroutine indices and index encoding for the merging glyphs
+		localSubrsMap := map[int32]int32{} // old to new index
+		for i := 0; i < sfnt2.CFF.fonts.localSubrs[0].Len(); i++ {
+			localSubrsMap[int32(i)] = int32(sfnt.CFF.fonts.localSubrs[0].Len() + i)
 		}
-
-		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
-		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
+		globalSubrsMap := map[int32]int32{} // old to new index
+		for i := 0; i < sfnt2.CFF.globalSubrs.Len(); i++ {
+			globalSubrsMap[int32(i)] = int32(sfnt.CFF.globalSubrs.Len() + i)
+		}
+		if err := cff2.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
 			return err
 		}
 
 		// merge charStrings
-		sfnt.CFF.charStrings.Extend(cff2.charStrings)
-		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		cff.charStrings.Extend(cff2.charStrings)
+		cff.globalSubrs = globalSubrs
+		cff.fonts = &cffFontINDEX{
+			private:    sfnt.CFF.fonts.private,
+			localSubrs: []*cffINDEX{localSubrs},
+			first:      []uint32{0, uint32(cff.charStrings.Len())},
+			fd:         []uint16{0},
+		}
 
 		// update charset
-		if sfnt2.CFF.charset != nil {
-			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
-					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
-				}
-			}
-			sfnt.CFF.charset = append(sfnt.CFF.charset, sfnt2.CFF.charset[1:]...)
-		} else if sfnt.CFF.charset != nil {
-			numGlyphs := sfnt2.CFF.charStrings.Len() - 1
-			for i := 0; i < numGlyphs; i++ {
-				sfnt.CFF.charset = append(sfnt.CFF.charset, "")
-			}
+		charset := make([]string, cff.charStrings.Len())
+		copy(charset, sfnt.CFF.charset)
+		if 0 < len(sfnt2.CFF.charset) {
+			copy(charset[origNumGlyphs:], sfnt2.CFF.charset[1:])
+		}
+		if sfnt.CFF.charset != nil || sfnt2.CFF.charset != nil {
+			cff.charset = charset
 		}
 
-		b, err := sfnt.CFF.Write()
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
+	} else {
+		return fmt.Errorf("merging CFF2 fonts not supported")
 	}
 
 	if sfnt2.Kern != nil {
-- 
2.43.0


From aad1c30a995fc74f72e0a370e885e60c140bfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 086/153] fix: Merge did not merge the vertical metrics

---
 sfnt_merge.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 53ebf6e..7c1b032 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -257,13 +257,17 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if _, ok := sfnt.Tables["hmtx"]; ok {
+	if _, ok := sfnt.Tables["hmtx"]; ok && sfnt.Hmtx != nil {
+		if sfnt2.Hmtx == nil {
+			return fmt.Errorf("hmtx table missing")
+		}
+		hmtx := sfnt.Hmtx
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
 		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 			if glyphID < int(origNumGlyphs) {
-				lsbs[glyphID] = sfnt.Hmtx.LeftSideBearing(uint16(glyphID))
-				advances[glyphID] = sfnt.Hmtx.Advance(uint16(glyphID))
+				lsbs[glyphID] = hmtx.LeftSideBearing(uint16(glyphID))
+				advances[glyphID] = hmtx.Advance(uint16(glyphID))
 			} else {
 				// +1 to skip .notdef
 				lsbs[glyphID] = sfnt2.Hmtx.LeftSideBearing(uint16(1+glyphID) - origNumGlyphs)
@@ -294,12 +298,40 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 		sfnt.Tables["hmtx"] = w.Bytes()
 
-		if table, ok := sfnt.Tables["hhea"]; ok {
+		if table, ok := sfnt.Tables["hhea"]; ok && sfnt.Hhea != nil {
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
 			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
 		}
 	}
 
+	if sfnt.Vmtx != nil && sfnt.Vhea != nil {
+		vmtx := &vmtxTable{
+			VMetrics: make([]vmtxLongVerMetric, numGlyphs),
+		}
+		w := parse.NewBinaryWriter(make([]byte, 0, 4*int(numGlyphs)))
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				vmtx.VMetrics[glyphID].AdvanceHeight = sfnt.Vmtx.Advance(uint16(glyphID))
+				vmtx.VMetrics[glyphID].TopSideBearing = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+			} else {
+				// +1 to skip .notdef
+				vmtx.VMetrics[glyphID].AdvanceHeight = sfnt2.GlyphVerticalAdvance(uint16(1+glyphID) - origNumGlyphs)
+				if sfnt2.Vmtx != nil {
+					vmtx.VMetrics[glyphID].TopSideBearing = sfnt2.Vmtx.TopSideBearing(uint16(1+glyphID) - origNumGlyphs)
+				}
+			}
+			w.WriteUint16(vmtx.VMetrics[glyphID].AdvanceHeight)
+			w.WriteInt16(vmtx.VMetrics[glyphID].TopSideBearing)
+		}
+		sfnt.Vmtx = vmtx
+		sfnt.Tables["vmtx"] = w.Bytes()
+
+		vhea := *sfnt.Vhea
+		vhea.NumberOfVMetrics = numGlyphs
+		sfnt.Vhea = &vhea
+		binary.BigEndian.PutUint16(sfnt.Tables["vhea"][34:], numGlyphs) // numberOfVMetrics
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
-- 
2.43.0


From bcb0d123d32a32bc99ca2c43c0b2a7cfe2fd2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 087/153] fix: Merge kept the font bounds and maximum advance
 of the first font

---
 sfnt_merge.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 7c1b032..0cf36cd 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -68,6 +68,18 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
 	}
 
+	// update head table
+	if table, ok := sfnt.Tables["head"]; ok && sfnt.Head != nil && sfnt2.Head != nil {
+		sfnt.Head.XMin = min(sfnt.Head.XMin, sfnt2.Head.XMin)
+		sfnt.Head.YMin = min(sfnt.Head.YMin, sfnt2.Head.YMin)
+		sfnt.Head.XMax = max(sfnt.Head.XMax, sfnt2.Head.XMax)
+		sfnt.Head.YMax = max(sfnt.Head.YMax, sfnt2.Head.YMax)
+		binary.BigEndian.PutUint16(table[36:], uint16(sfnt.Head.XMin))
+		binary.BigEndian.PutUint16(table[38:], uint16(sfnt.Head.YMin))
+		binary.BigEndian.PutUint16(table[40:], uint16(sfnt.Head.XMax))
+		binary.BigEndian.PutUint16(table[42:], uint16(sfnt.Head.YMax))
+	}
+
 	// update glyf/loca or CFF tables
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
@@ -301,6 +313,16 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		if table, ok := sfnt.Tables["hhea"]; ok && sfnt.Hhea != nil {
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
 			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
+			if sfnt2.Hhea != nil {
+				sfnt.Hhea.AdvanceWidthMax = max(sfnt.Hhea.AdvanceWidthMax, sfnt2.Hhea.AdvanceWidthMax)
+				sfnt.Hhea.MinLeftSideBearing = min(sfnt.Hhea.MinLeftSideBearing, sfnt2.Hhea.MinLeftSideBearing)
+				sfnt.Hhea.MinRightSideBearing = min(sfnt.Hhea.MinRightSideBearing, sfnt2.Hhea.MinRightSideBearing)
+				sfnt.Hhea.XMaxExtent = max(sfnt.Hhea.XMaxExtent, sfnt2.Hhea.XMaxExtent)
+				binary.BigEndian.PutUint16(table[10:], sfnt.Hhea.AdvanceWidthMax)
+				binary.BigEndian.PutUint16(table[12:], uint16(sfnt.Hhea.MinLeftSideBearing))
+				binary.BigEndian.PutUint16(table[14:], uint16(sfnt.Hhea.MinRightSideBearing))
+				binary.BigEndian.PutUint16(table[16:], uint16(sfnt.Hhea.XMaxExtent))
+			}
 		}
 	}
 
-- 
2.43.0


From 33011160cf926e12364a1e0010fcf82fe358aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 088/153] fix: Merge refused fonts with .notdef in both
 character maps or with cmap subtables that disagree

---
 sfnt_merge.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 0cf36cd..409218e 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -354,27 +354,26 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint16(sfnt.Tables["vhea"][34:], numGlyphs) // numberOfVMetrics
 	}
 
+	rs := make([]rune, 0, numGlyphs)
 	if _, ok := sfnt.Tables["cmap"]; ok {
-		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
 		if options.RearrangeCmap {
-			rs = append(rs, 65535) // .notdef
-			runeMap[65535] = 0
 			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
 				r := rune(glyphID + 32) // unicode codepoints below 33 don't display in firefox
 				rs = append(rs, r)
 				runeMap[r] = uint16(glyphID)
 			}
 		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
-				var rsGlyph []rune
-				if glyphID < int(origNumGlyphs) {
-					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-				} else {
-					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
+				font, fontGlyphID := sfnt, uint16(glyphID)
+				if int(origNumGlyphs) <= glyphID {
+					font, fontGlyphID = sfnt2, uint16(1+glyphID)-origNumGlyphs // +1 to skip .notdef
 				}
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
+				for _, r := range font.GlyphToUnicode(fontGlyphID) {
+					if font.GlyphIndex(r) != fontGlyphID {
+						continue // character map subtables disagree
+					}
+					rs = append(rs, r)
 					if otherGlyphID, ok := runeMap[r]; ok {
 						glyphName, otherGlyphName := "", ""
 						if glyphID < int(origNumGlyphs) {
-- 
2.43.0


From 861827d8038d720f08d9eaa91b509887340a6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 089/153] fix: Merge panicked for fonts without OS/2 table and
 kept the first and last character index

---
 sfnt_merge.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 409218e..0bb875a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -399,7 +399,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt.OS2 != nil && sfnt2.OS2 != nil {
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
@@ -408,6 +408,16 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
 		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+		if 0 < len(rs) {
+			minRune, maxRune := rs[0], rs[0]
+			for _, r := range rs {
+				minRune, maxRune = min(minRune, r), max(maxRune, r)
+			}
+			sfnt.OS2.UsFirstCharIndex = uint16(min(minRune, 0xFFFF))
+			sfnt.OS2.UsLastCharIndex = uint16(min(maxRune, 0xFFFF))
+			binary.BigEndian.PutUint16(table[64:], sfnt.OS2.UsFirstCharIndex)
+			binary.BigEndian.PutUint16(table[66:], sfnt.OS2.UsLastCharIndex)
+		}
 	}
 
 	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-- 
2.43.0


From b72957408ad6bdbca5d5ad0196efdd8384d447b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 090/153] fix: Merge mixed up glyph names, and wrote a bad post
 table if only the first font has names

---
 sfnt_merge.go | 70 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 0bb875a..a079bc7 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -420,40 +420,54 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
-		}
-		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
-				index = uint16(len(sfnt.Post.stringData) + 258)
-				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post != nil {
+		post2 := sfnt2.Post
+		if post2 == nil {
+			post2 = &postTable{}
+		}
+		post := &postTable{
+			ItalicAngle:        sfnt.Post.ItalicAngle,
+			UnderlinePosition:  sfnt.Post.UnderlinePosition,
+			UnderlineThickness: sfnt.Post.UnderlineThickness,
+			IsFixedPitch:       sfnt.Post.IsFixedPitch,
+			MinMemType42:       sfnt.Post.MinMemType42 + post2.MinMemType42,
+			MaxMemType42:       sfnt.Post.MaxMemType42 + post2.MaxMemType42,
+			MinMemType1:        sfnt.Post.MinMemType1 + post2.MinMemType1,
+			MaxMemType1:        sfnt.Post.MaxMemType1 + post2.MaxMemType1,
+		}
+		if post2.IsFixedPitch == 0 {
+			post.IsFixedPitch = 0
+		}
+
+		if len(sfnt.Post.glyphNameIndex) != 0 || len(post2.glyphNameIndex) != 0 {
+			post.NumGlyphs = numGlyphs
+			post.stringData = [][]byte{}
+			indices := map[string]uint16{}
+			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+				var name string
+				if glyphID < int(origNumGlyphs) {
+					name = sfnt.Post.Get(uint16(glyphID))
+				} else {
+					name = post2.Get(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+				}
+				index, ok := indices[name] // reuse existing names
+				if !ok {
+					if math.MaxUint16 < len(post.stringData)+258 {
+						return fmt.Errorf("invalid post table: stringData has too many entries")
+					}
+					index = uint16(258 + len(post.stringData))
+					post.stringData = append(post.stringData, []byte(name))
+					indices[name] = index
+				}
+				post.glyphNameIndex = append(post.glyphNameIndex, index)
 			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
-		}
-
-		if sfnt2.Post.IsFixedPitch == 0 {
-			sfnt.Post.IsFixedPitch = 0
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
-		sfnt.Post.NumGlyphs = numGlyphs
 
-		b, err := sfnt.Post.Write()
+		b, err := post.Write()
 		if err != nil {
 			return fmt.Errorf("invalid post table: %v", err)
 		}
+		sfnt.Post = post
 		sfnt.Tables["post"] = b
 	}
 
-- 
2.43.0


From 734b609e2175cfdd614ed0fbe63e6fc563e5dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 091/153] fix: Macintosh Roman cmap subtables mapped negative
 runes

---
 sfnt_cmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 0f1e613..7e7b7c5 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -189,6 +189,9 @@ type cmapMacRoman struct {
 }
 
 func (subtable *cmapMacRoman) Get(r rune) (uint16, bool) {
+	if r < 0 {
+		return 0, false
+	}
 	code, ok := charmap.Macintosh.EncodeRune(r)
 	if !ok {
 		return 0, false
-- 
2.43.0


From 9062f0895c3fb3e4123a88ddf915c5cced888222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 092/153] fix: GlyphToUnicode took quadratic time in the number
 of runes of a glyph

---
 sfnt_cmap.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 7e7b7c5..396c2eb 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -433,15 +433,18 @@ func (cmap *cmapTable) Get(r rune) uint16 {
 // ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none.
 func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	var rs []rune
-	for _, subtable := range cmap.Subtables {
-	AppendLoop:
+	var seen map[rune]struct{}
+	for i, subtable := range cmap.Subtables {
 		for _, r := range subtable.ToUnicode(glyphID) {
-			for _, r2 := range rs {
-				if r2 == r {
-					continue AppendLoop
-				}
+			if _, ok := seen[r]; !ok {
+				rs = append(rs, r)
+			}
+		}
+		if i+1 < len(cmap.Subtables) {
+			seen = make(map[rune]struct{}, len(rs))
+			for _, r := range rs {
+				seen[r] = struct{}{}
 			}
-			rs = append(rs, r)
 		}
 	}
 	return rs
-- 
2.43.0


From ed4a8925b674f849e467432a00d687328fddb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 093/153] fix: merging CFF fonts shared the subroutines of the
 added font

---
 sfnt_cff.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8bcc044..1c73abc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1228,8 +1228,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		*t = *o.Copy() // don't share data
 		return
 	}
 
-- 
2.43.0


From 4981c6544db4de12c4d0c90d4c083cc46c6d3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:00 +0000
Subject: [PATCH 094/153] fix: SetGlyphNames panicked for fonts without CFF
 table

---
 sfnt_subset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index f710225..ebd2c07 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -579,6 +579,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF table doesn't exist")
+		}
+
 		charset := make([]string, sfnt.CFF.charStrings.Len())
 		for i := copy(charset, names); i < len(charset); i++ {
 			charset[i] = ".notdef"
-- 
2.43.0


From 7bba3b64ba1a6ee4e1b28f8d871ad778876fdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 095/153] fix: the first glyph of CFF subsets had another name
 before than after writing

---
 sfnt_subset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index ebd2c07..8460dd0 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -233,6 +233,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				for i, glyphID := range glyphIDs {
 					charset[i] = cff.charset[glyphID]
 				}
+				charset[0] = ".notdef" // not stored
 				cff.charset = charset
 			}
 
-- 
2.43.0


From 4938508953c779dfb04ee8d18200e5e447a9c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:12 +0000
Subject: [PATCH 096/153] fix: merging a font without OS/2 table did not update
 the range of characters

---
 sfnt_merge.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index a079bc7..465ad72 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -399,15 +399,17 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt.OS2 != nil && sfnt2.OS2 != nil {
-		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
-		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
-		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
-		sfnt.OS2.UlUnicodeRange4 |= sfnt2.OS2.UlUnicodeRange4
-		binary.BigEndian.PutUint32(table[42:], sfnt.OS2.UlUnicodeRange1)
-		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
-		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
-		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt.OS2 != nil {
+		if sfnt2.OS2 != nil {
+			sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
+			sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
+			sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
+			sfnt.OS2.UlUnicodeRange4 |= sfnt2.OS2.UlUnicodeRange4
+			binary.BigEndian.PutUint32(table[42:], sfnt.OS2.UlUnicodeRange1)
+			binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
+			binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
+			binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+		}
 		if 0 < len(rs) {
 			minRune, maxRune := rs[0], rs[0]
 			for _, r := range rs {
-- 
2.43.0


From 95b13b46ed9521a494c4eb6e7adfeea4d1a247ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:27 +0000
Subject: [PATCH 097/153] fix: fonts without characters were written without
 any character map, which font readers refuse

---
 sfnt_cmap.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 396c2eb..04adbdb 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -239,7 +239,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 	}
 
 	i0 := 0
-	glyphIDs := []uint16{runeMap[rs[0]]}
+	glyphIDs := []uint16{}
+	if 0 < len(rs) {
+		glyphIDs = append(glyphIDs, runeMap[rs[0]])
+	}
 	for i := 1; i <= len(rs); i++ {
 		if i == len(rs) || rs[i-1]+1 != rs[i] {
 			// Find subsets of glyphIDs that are contiguous for at least 9 glyphs in a row.
@@ -357,19 +360,17 @@ func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16
 }
 
 func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
-	if len(rs) == 0 {
-		return []byte{0x00, 0x00, 0x00, 0x00}
-	}
-
 	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
-	n := 1
-	for i := 1; i < len(rs); i++ {
-		if rs[i] != rs[n-1] {
-			rs[n] = rs[i]
-			n++
+	if 0 < len(rs) {
+		n := 1
+		for i := 1; i < len(rs); i++ {
+			if rs[i] != rs[n-1] {
+				rs[n] = rs[i]
+				n++
+			}
 		}
+		rs = rs[:n]
 	}
-	rs = rs[:n]
 
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
-- 
2.43.0


From 0338cd1606d7f2d7611a68bb558d64955e549c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 098/153] fix: ParseEOT rejected all valid files, panicked for
 truncated files, and decrypted the input in place

---
 eot.go | 71 ++++++++++++++++++++++++++++++++--------------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..d6f76cb 100644
--- a/eot.go
+++ b/eot.go
@@ -3,13 +3,16 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-	"io"
 
 	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
+	if len(b) < 80 {
+		return nil, ErrInvalidFontData
+	}
+
 	r := parse.NewBinaryReaderBytes(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
@@ -31,58 +34,62 @@ func ParseEOT(b []byte) ([]byte, error) {
 	_ = r.ReadBytes(24) // Unicode and CodePage ranges
 	checkSumAdjustment := r.ReadUint32()
 	_ = r.ReadBytes(16) // Reserved
-	_ = r.ReadUint16()  // Padding1
-
-	familyNameSize := r.ReadUint16()       // FamilyNameSize
-	_ = r.ReadBytes(int64(familyNameSize)) // FamilyName
-	_ = r.ReadUint16()                     // Padding2
-
-	styleNameSize := r.ReadUint16()       // StyleNameSize
-	_ = r.ReadBytes(int64(styleNameSize)) // Stylename
-	_ = r.ReadUint16()                    // Padding3
-
-	versionNameSize := r.ReadUint16()       // VersionNameSize
-	_ = r.ReadBytes(int64(versionNameSize)) // VersionName
-	_ = r.ReadUint16()                      // Padding4
-
-	fullNameSize := r.ReadUint16()       // FullNameSize
-	_ = r.ReadBytes(int64(fullNameSize)) // FullName
 
+	numNames := 4 // FamilyName, StyleName, VersionName, and FullName
 	if version == 0x00020001 || version == 0x00020002 {
-		_ = r.ReadUint16()                     // Padding5
-		rootStringSize := r.ReadUint16()       // RootStringSize
-		_ = r.ReadBytes(int64(rootStringSize)) // RootString
+		numNames++ // RootString
+	}
+	for i := 0; i < numNames; i++ {
+		if r.Len() < 4 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint16()     // Padding
+		size := r.ReadUint16() // NameSize
+		if r.Len() < int64(size) {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadBytes(int64(size)) // Name
 	}
 	if version == 0x00020002 {
-		_ = r.ReadUint32()                    // RootStringCheckSum
-		_ = r.ReadUint32()                    // EUDCCodePage
-		_ = r.ReadUint16()                    // Padding6
-		signatureSize := r.ReadUint16()       // SignatureSize
+		if r.Len() < 12 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint32()              // RootStringCheckSum
+		_ = r.ReadUint32()              // EUDCCodePage
+		_ = r.ReadUint16()              // Padding6
+		signatureSize := r.ReadUint16() // SignatureSize
+		if r.Len() < int64(signatureSize)+8 {
+			return nil, ErrInvalidFontData
+		}
 		_ = r.ReadBytes(int64(signatureSize)) // Signature
 		_ = r.ReadUint32()                    // EUDCFlags
 		eudcFontSize := r.ReadUint32()        // EUDCFontSize
-		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
+		if r.Len() < int64(eudcFontSize) {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadBytes(int64(eudcFontSize)) // EUDCFontData
 	}
 
-	fontData := r.ReadBytes(int64(fontDataSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(fontDataSize) {
 		return nil, ErrInvalidFontData
 	}
+	fontData := r.ReadBytes(int64(fontDataSize))
 
 	isCompressed := (flags & 0x00000004) != 0
 	isXORed := (flags & 0x10000000) != 0
 
+	if isCompressed {
+		// TODO: (EOT) see https://www.w3.org/Submission/MTX/
+		return nil, fmt.Errorf("EOT compression not supported")
+	}
+
 	if isXORed {
+		fontData = append([]byte{}, fontData...) // don't write to b
 		for i := 0; i < len(fontData); i++ {
 			fontData[i] ^= 0x50
 		}
 	}
 
-	if isCompressed {
-		// TODO: (EOT) see https://www.w3.org/Submission/MTX/
-		return nil, fmt.Errorf("EOT compression not supported")
-	}
-
 	_ = checkSumAdjustment
 	// TODO: (EOT) verify or recalculate master checksum
 	//checksum := 0xB1B0AFBA - calcChecksum(w.Bytes())
-- 
2.43.0


From d69522ccff97b31209a71b04c6178bdce330ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 099/153] fix: ParseWOFF rejected empty tables at the offset of
 another table

---
 woff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/woff.go b/woff.go
index 865f3a8..986850c 100644
--- a/woff.go
+++ b/woff.go
@@ -24,6 +24,9 @@ type tablePositions struct {
 }
 
 func (table *tablePositions) Add(offset, length uint32) {
+	if length == 0 {
+		return // cannot overlap
+	}
 	i := 0
 	for i < len(table.offsets) && table.offsets[i] < offset {
 		i++
-- 
2.43.0


From 5b26b9f001fdf6fbdaa68edd2a51ccceb6f332ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:54 +0000
Subject: [PATCH 100/153] fix: ParseWOFF panicked for tables larger than the
 file

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 986850c..f77b5c1 100644
--- a/woff.go
+++ b/woff.go
@@ -99,7 +99,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
-- 
2.43.0


From c5d5662dc14bb98d279ca09266c0fb9cf93106fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 101/153] fix: ParseWOFF used unbounded memory for tables that
 decompress to more than their length

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index f77b5c1..04350a2 100644
--- a/woff.go
+++ b/woff.go
@@ -174,7 +174,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			if err = r.Close(); err != nil {
-- 
2.43.0


From 9237cc682b43c9ffd4f044eef611b485dd489c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 102/153] fix: ParseWOFF modified its input for uncompressed
 head tables

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 04350a2..fedc09a 100644
--- a/woff.go
+++ b/woff.go
@@ -201,6 +201,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte{}, data...) // don't write to b
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From 1c4965932353a22a4f9a79eeaee60e119bdd35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:19 +0000
Subject: [PATCH 103/153] fix: FromGoFreetype modified the original font

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 8d5bd1f..ad96282 100644
--- a/font.go
+++ b/font.go
@@ -166,6 +166,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
+		tables[tag] = append([]byte{}, tables[tag]...) // don't write to the original font
 		for j := 0; j < int(padding); j++ {
 			tables[tag] = append(tables[tag], 0x00)
 		}
-- 
2.43.0


From 4bf52b773a978b04acd2a39a83062e6f1e3ffcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 104/153] fix: FromGoSFNT returned the whole collection for a
 font of a collection

---
 font.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/font.go b/font.go
index ad96282..667141b 100644
--- a/font.go
+++ b/font.go
@@ -197,5 +197,29 @@ func FromGoFreetype(font *truetype.Font) []byte {
 func FromGoSFNT(font *sfnt.Font) []byte {
 	v := reflect.ValueOf(*font)
 	buf := v.FieldByName("src").FieldByName("b").Bytes()
+	if len(buf) < 12 || string(buf[:4]) != "ttcf" {
+		return buf
+	}
+
+	// extract the font that has the same tables from the collection
+	fields := map[string]string{"cmap": "cmap", "head": "head", "hhea": "hhea", "hmtx": "hmtx", "maxp": "maxp", "name": "name", "OS/2": "os2", "post": "post", "glyf": "glyf", "loca": "loca", "CFF ": "cff", "kern": "kern"}
+	for index := 0; index < int(binary.BigEndian.Uint32(buf[8:])); index++ {
+		sfnt, err := ParseEmbeddedSFNT(buf, index)
+		if err != nil {
+			continue
+		}
+		same := true
+		for tag, field := range fields {
+			table := v.FieldByName(field)
+			offset, length := table.FieldByName("offset").Uint(), table.FieldByName("length").Uint()
+			if !bytes.Equal(buf[offset:offset+length], sfnt.Tables[tag]) {
+				same = false
+				break
+			}
+		}
+		if same {
+			return sfnt.Write()
+		}
+	}
 	return buf
 }
-- 
2.43.0


From 3c91f75f32987ca149c7f2595ddbdee1eaf0be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 105/153] fix: ParseWOFF2 rejected files and tables without
 trailing data, panicked for truncated tables, and mixed up overlap flags

---
 woff2.go | 144 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 84 insertions(+), 60 deletions(-)

diff --git a/woff2.go b/woff2.go
index 2bf4e17..414daba 100644
--- a/woff2.go
+++ b/woff2.go
@@ -78,9 +78,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	_ = r.ReadUint32()                    // metaOrigLength
 	_ = r.ReadUint32()                    // privOffset
 	_ = r.ReadUint32()                    // privLength
-	if r.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if length != uint32(len(b)) {
+	if length != uint32(len(b)) {
 		return nil, fmt.Errorf("length in header must match file size")
 	} else if numTables == 0 {
 		return nil, fmt.Errorf("numTables in header must not be zero")
@@ -93,18 +91,24 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	tables := []woff2Table{}
 	var uncompressedSize uint32
 	for i := 0; i < int(numTables); i++ {
+		if r.Len() < 1 {
+			return nil, ErrInvalidFontData
+		}
 		flags := r.ReadUint8()
 		tagIndex := int(flags & 0x3F)
 		transformVersion := int((flags & 0xC0) >> 6)
 
 		var tag string
 		if tagIndex == 63 {
+			if r.Len() < 4 {
+				return nil, ErrInvalidFontData
+			}
 			tag = uint32ToString(r.ReadUint32())
 		} else {
 			tag = woff2TableTags[tagIndex]
 		}
 
-		origLength, err := readUintBase128(r) // if EOF is encountered above
+		origLength, err := readUintBase128(r)
 		if err != nil {
 			return nil, err
 		}
@@ -163,12 +167,12 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	// TODO: (WOFF2) parse collection directory format
 
 	// decompress font data using Brotli
-	compData := r.ReadBytes(int64(totalCompressedSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(totalCompressedSize) {
 		return nil, ErrInvalidFontData
 	} else if MaxMemory < uncompressedSize {
 		return nil, ErrExceedsMemory
 	}
+	compData := r.ReadBytes(int64(totalCompressedSize))
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
 	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
@@ -339,6 +343,9 @@ func signInt16(flag byte, pos uint) int16 {
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
 	r := parse.NewBinaryReaderBytes(b)
+	if r.Len() < 36 {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -350,25 +357,26 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	compositeStreamSize := r.ReadUint32()
 	bboxStreamSize := r.ReadUint32()
 	instructionStreamSize := r.ReadUint32()
-	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) {
+	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	streamsSize := uint64(nContourStreamSize) + uint64(nPointsStreamSize) + uint64(flagStreamSize) + uint64(glyphStreamSize) + uint64(compositeStreamSize) + uint64(bboxStreamSize) + uint64(instructionStreamSize)
+	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
+		streamsSize += uint64(bitmapSize)
+	}
+	if nContourStreamSize != 2*uint32(numGlyphs) || bboxStreamSize < bitmapSize || uint64(r.Len()) < streamsSize {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
-	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
 	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
 	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
 	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxBitmap := r.ReadBytes(int64(bitmapSize))
 	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
 	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
-	var overlapSimpleBitmap *parse.BitmapReader
+	var overlapSimpleBitmap []byte
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	}
-	if r.Err() == io.EOF {
-		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+		overlapSimpleBitmap = r.ReadBytes(int64(bitmapSize))
 	}
 
 	locaLength := (uint32(numGlyphs) + 1) * 2
@@ -388,7 +396,8 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
-		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		explicitBbox := bboxBitmap[iGlyph>>3]&(0x80>>(iGlyph&7)) != 0
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap[iGlyph>>3]&(0x80>>(iGlyph&7)) != 0
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
 			if explicitBbox {
@@ -398,26 +407,26 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		} else if 0 < nContours { // simple glyph
 			var xMin, yMin, xMax, yMax int16
 			if explicitBbox {
+				if bboxStream.Len() < 8 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				xMin = bboxStream.ReadInt16()
 				yMin = bboxStream.ReadInt16()
 				xMax = bboxStream.ReadInt16()
 				yMax = bboxStream.ReadInt16()
-				if bboxStream.Err() == io.EOF {
-					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-				}
 			}
 
 			var nPoints uint16
 			endPtsOfContours := make([]uint16, nContours)
 			for iContour := int16(0); iContour < nContours; iContour++ {
-				nPoint := read255Uint16(nPointsStream)
-				if math.MaxUint16-nPoints < nPoint {
+				nPoint, ok := read255Uint16(nPointsStream)
+				if !ok || nPoint == 0 || math.MaxUint16-nPoints < nPoint {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 				nPoints += nPoint
 				endPtsOfContours[iContour] = nPoints - 1
 			}
-			if nPointsStream.Err() == io.EOF {
+			if flagStream.Len() < int64(nPoints) {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
@@ -430,6 +439,18 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				onCurve := (flag & 0x80) == 0
 				flag &= 0x7f
 
+				numBytes := int64(4)
+				if flag < 84 {
+					numBytes = 1
+				} else if flag < 120 {
+					numBytes = 2
+				} else if flag < 124 {
+					numBytes = 3
+				}
+				if glyphStream.Len() < numBytes {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
+
 				// used for reference: https://github.com/fonttools/fonttools/blob/master/Lib/fontTools/ttLib/woff2.py
 				// as well as: https://github.com/google/woff2/blob/master/src/woff2_dec.cc
 				var dx, dy int16
@@ -472,7 +493,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
@@ -502,15 +523,12 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					}
 				}
 			}
-			if flagStream.Err() == io.EOF || glyphStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
-			instructionLength := read255Uint16(glyphStream)
-			instructions := instructionStream.ReadBytes(int64(instructionLength))
-			if instructionStream.Err() == io.EOF {
+			instructionLength, ok := read255Uint16(glyphStream)
+			if !ok || instructionStream.Len() < int64(instructionLength) {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
+			instructions := instructionStream.ReadBytes(int64(instructionLength))
 
 			// write simple glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -539,13 +557,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				return nil, nil, fmt.Errorf("glyf: composite glyph must have bbox definition")
 			}
 
+			if bboxStream.Len() < 8 {
+				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+			}
 			xMin := bboxStream.ReadInt16()
 			yMin := bboxStream.ReadInt16()
 			xMax := bboxStream.ReadInt16()
 			yMax := bboxStream.ReadInt16()
-			if bboxStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
 			// write composite glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -556,6 +574,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 			hasInstructions := false
 			for {
+				if compositeStream.Len() < 2 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				compositeFlag := compositeStream.ReadUint16()
 				argsAreWords := (compositeFlag & 0x0001) != 0
 				haveScale := (compositeFlag & 0x0008) != 0
@@ -575,10 +596,10 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				} else if have2by2 {
 					numBytes += 8
 				}
-				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
-				if compositeStream.Err() == io.EOF {
+				if compositeStream.Len() < int64(numBytes) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
 
 				w.WriteUint16(compositeFlag)
 				w.WriteBytes(compositeBytes)
@@ -592,11 +613,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 
 			if hasInstructions {
-				instructionLength := read255Uint16(glyphStream)
-				instructions := instructionStream.ReadBytes(int64(instructionLength))
-				if instructionStream.Err() == io.EOF {
+				instructionLength, ok := read255Uint16(glyphStream)
+				if !ok || instructionStream.Len() < int64(instructionLength) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				instructions := instructionStream.ReadBytes(int64(instructionLength))
 				w.WriteUint16(instructionLength)
 				w.WriteBytes(instructions)
 			}
@@ -620,27 +641,28 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
 	rHead := parse.NewBinaryReaderBytes(head)
-	_ = rHead.ReadBytes(50) // skip
-	indexFormat := rHead.ReadInt16()
-	if rHead.Err() == io.EOF {
+	if rHead.Len() < 52 {
 		return nil, ErrInvalidFontData
 	}
+	_ = rHead.ReadBytes(50) // skip
+	indexFormat := rHead.ReadInt16()
 
 	// get numGlyphs
 	rMaxp := parse.NewBinaryReaderBytes(maxp)
-	_ = rMaxp.ReadUint32() // version
-	numGlyphs := rMaxp.ReadUint16()
-	if rMaxp.Err() == io.EOF {
+	if rMaxp.Len() < 6 {
 		return nil, ErrInvalidFontData
 	}
+	_ = rMaxp.ReadUint32() // version
+	numGlyphs := rMaxp.ReadUint16()
 
 	// get numHMetrics
 	rHhea := parse.NewBinaryReaderBytes(hhea)
+	if rHhea.Len() < 36 {
+		return nil, ErrInvalidFontData
+	}
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
-	if rHhea.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if numHMetrics < 1 {
+	if numHMetrics < 1 {
 		return nil, fmt.Errorf("hmtx: must have at least one entry")
 	} else if numGlyphs < numHMetrics {
 		return nil, fmt.Errorf("hmtx: more entries than glyphs in glyf")
@@ -722,13 +744,11 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
-			_ = rGlyf.ReadInt16() // numContours
-			xMin := rGlyf.ReadInt16()
-			if rGlyf.Err() == io.EOF {
+			if _, err := rGlyf.Seek(int64(offset), 0); err != nil || rGlyf.Len() < 4 {
 				return nil, ErrInvalidFontData
 			}
-			lsbs[iGlyph] = xMin
+			_ = rGlyf.ReadInt16()            // numContours
+			lsbs[iGlyph] = rGlyf.ReadInt16() // xMin
 		}
 		offset = offsetNext
 	}
@@ -748,10 +768,10 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
-		dataByte := r.ReadUint8()
-		if r.Err() == io.EOF {
+		if r.Len() < 1 {
 			return 0, ErrInvalidFontData
 		}
+		dataByte := r.ReadUint8()
 		if i == 0 && dataByte == 0x80 {
 			return 0, fmt.Errorf("readUintBase128: must not start with leading zeros")
 		}
@@ -766,18 +786,22 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *parse.BinaryReader) (uint16, bool) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
+	if r.Len() < 1 {
+		return 0, false
+	}
 	code := r.ReadUint8()
-	if code == 253 {
-		return r.ReadUint16()
+	if code < 253 {
+		return uint16(code), true
+	} else if r.Len() < 1 || code == 253 && r.Len() < 2 {
+		return 0, false
+	} else if code == 253 {
+		return r.ReadUint16(), true
 	} else if code == 255 {
-		return uint16(r.ReadUint8()) + 253
-	} else if code == 254 {
-		return uint16(r.ReadUint8()) + 253*2
-	} else {
-		return uint16(code)
+		return uint16(r.ReadUint8()) + 253, true
 	}
+	return uint16(r.ReadUint8()) + 253*2, true
 }
 
 func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
-- 
2.43.0


From 091b9a21db318b83c8a76a2ae3f2991c6b0a013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 106/153] fix: ParseWOFF2 used unbounded memory for data that
 decompresses to more than its length

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 414daba..18609a4 100644
--- a/woff2.go
+++ b/woff2.go
@@ -175,7 +175,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	compData := r.ReadBytes(int64(totalCompressedSize))
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
-- 
2.43.0


From 1973cfd9b7ff2863db160337324e7cf79e851a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 107/153] fix: ParseWOFF2 misread untransformed glyf tables as
 transformed and rejected them

---
 woff2.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index 18609a4..865b295 100644
--- a/woff2.go
+++ b/woff2.go
@@ -212,17 +212,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
-- 
2.43.0


From 315b8eeeefd49193b6c3d27f58a042d2b310eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 108/153] fix: ParseWOFF and ParseWOFF2 did not terminate for
 32768 tables or more

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index fedc09a..ae171e2 100644
--- a/woff.go
+++ b/woff.go
@@ -134,7 +134,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if searchRange > numTables/2 {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index 865b295..7d9d9c3 100644
--- a/woff2.go
+++ b/woff2.go
@@ -261,7 +261,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if searchRange > numTables/2 {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From 408f738f1f385563f16f983affcac18a6d3de29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 109/153] fix: ParseWOFF2 wrote bad glyph offsets when the glyf
 table grew beyond the short loca format

---
 woff2.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/woff2.go b/woff2.go
index 7d9d9c3..102a1a9 100644
--- a/woff2.go
+++ b/woff2.go
@@ -475,9 +475,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				xCoordinates = append(xCoordinates, dx)
 				yCoordinates = append(yCoordinates, dy)
 
-				// keep bit 1-5 zero, that means x and y are two bytes long, this flag is not
-				// repeated, and all coordinates are in the coordinate array even if they are the
-				// same as the previous.
+				// keep bit 1-5 zero, these are set when writing
 				var outlineFlag byte
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
@@ -531,15 +529,50 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			w.WriteUint16(instructionLength)
 			w.WriteBytes(instructions)
 
-			// we could write this more compactly, but is that really necessary?
-			for _, outlineFlag := range outlineFlags {
-				w.WriteByte(outlineFlag) // flag
+			// write compactly as offsets may otherwise not fit in the loca table
+			for iPoint := range outlineFlags {
+				if dx := xCoordinates[iPoint]; dx == 0 {
+					outlineFlags[iPoint] |= 0x10 // X_IS_SAME
+				} else if 0 < dx && dx < 256 {
+					outlineFlags[iPoint] |= 0x12 // X_SHORT_VECTOR and POSITIVE_X_SHORT_VECTOR
+				} else if -256 < dx && dx < 0 {
+					outlineFlags[iPoint] |= 0x02 // X_SHORT_VECTOR
+				}
+				if dy := yCoordinates[iPoint]; dy == 0 {
+					outlineFlags[iPoint] |= 0x20 // Y_IS_SAME
+				} else if 0 < dy && dy < 256 {
+					outlineFlags[iPoint] |= 0x24 // Y_SHORT_VECTOR and POSITIVE_Y_SHORT_VECTOR
+				} else if -256 < dy && dy < 0 {
+					outlineFlags[iPoint] |= 0x04 // Y_SHORT_VECTOR
+				}
+			}
+			for iPoint := 0; iPoint < len(outlineFlags); {
+				repeats := 0
+				for repeats < 255 && iPoint+repeats+1 < len(outlineFlags) && outlineFlags[iPoint+repeats+1] == outlineFlags[iPoint] {
+					repeats++
+				}
+				if 0 < repeats {
+					w.WriteByte(outlineFlags[iPoint] | 0x08) // REPEAT_FLAG
+					w.WriteByte(byte(repeats))
+				} else {
+					w.WriteByte(outlineFlags[iPoint])
+				}
+				iPoint += repeats + 1
+			}
+			writeDelta := func(delta int16) {
+				if delta <= -256 || 256 <= delta {
+					w.WriteInt16(delta)
+				} else if 0 < delta {
+					w.WriteByte(byte(delta))
+				} else if delta < 0 {
+					w.WriteByte(byte(-delta))
+				}
 			}
 			for _, xCoordinate := range xCoordinates {
-				w.WriteInt16(xCoordinate)
+				writeDelta(xCoordinate)
 			}
 			for _, yCoordinate := range yCoordinates {
-				w.WriteInt16(yCoordinate)
+				writeDelta(yCoordinate)
 			}
 		} else { // composite glyph
 			if !explicitBbox {
@@ -612,10 +645,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 		}
 
-		// offsets for loca table should be 4-byte aligned
-		for w.Len()%4 != 0 {
+		// offsets for loca table should be 4-byte aligned, but save space for the short format
+		for indexFormat != 0 && w.Len()%4 != 0 || w.Len()%2 != 0 {
 			w.WriteByte(0x00)
 		}
+		if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
+			return nil, nil, fmt.Errorf("glyf: table too large for short loca format")
+		}
 	}
 
 	// last entry in loca table
-- 
2.43.0


From 23ff5b56d8b41826e1c3bfb42b09fb615fd42122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 110/153] fix: WriteWOFF2 mixed up the instructions and side
 bearings of composite glyphs, and panicked for truncated glyphs

---
 woff2.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 102a1a9..ccfb01a 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1084,21 +1084,31 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		} else {
 			// composite glyph
 			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			if r.Len() < 10 {
+				return nil, nil
+			}
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
 			hasInstructions := false
 			for {
+				if r.Len() < 2 {
+					return nil, nil
+				}
 				flags := r.ReadUint16()
 				length, more := glyfCompositeLength(flags)
 				if flags&0x0100 != 0 {
 					hasInstructions = true
 				}
+				if r.Len() < int64(length)-2 {
+					return nil, nil
+				}
 
 				compositeStream.WriteUint16(flags)
 				compositeStream.WriteBytes(r.ReadBytes(int64(length) - 2))
@@ -1107,9 +1117,15 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 			}
 			if hasInstructions {
+				if r.Len() < 2 {
+					return nil, nil
+				}
 				instructionLength := r.ReadUint16()
+				if r.Len() < int64(instructionLength) {
+					return nil, nil
+				}
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From 94cdce33be000f6694362537e56fc3ad942cd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 111/153] fix: WriteWOFF2 mixed up the overlap flags of glyphs
 after an empty glyph, and wrote a bad bounding box bitmap for multiples of 32
 glyphs

---
 woff2.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/woff2.go b/woff2.go
index ccfb01a..6b79b0f 100644
--- a/woff2.go
+++ b/woff2.go
@@ -949,10 +949,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	flagStream := parse.NewBinaryWriter([]byte{})
 	glyphStream := parse.NewBinaryWriter([]byte{})
 	compositeStream := parse.NewBinaryWriter([]byte{})
-	bboxBitmapStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	bboxBitmap := make([]byte, bitmapSize)
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
-	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	overlapSimpleBitmap := make([]byte, bitmapSize)
 
 	var optionFlags uint16
 	xMins := make([]int16, numGlyphs)
@@ -969,7 +969,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			} else if len(contour.EndPoints) == 0 {
 				// empty glyph
 				nContourStream.WriteInt16(0)
-				bboxBitmapStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -1129,23 +1128,25 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			}
 		}
 
-		bboxBitmapStream.Write(!bboxEqual)
 		if !bboxEqual {
+			bboxBitmap[glyphID>>3] |= 0x80 >> (glyphID & 7)
 			bboxStream.WriteInt16(xMin)
 			bboxStream.WriteInt16(yMin)
 			bboxStream.WriteInt16(xMax)
 			bboxStream.WriteInt16(yMax)
 		}
 
-		overlapSimpleStream.Write(hasOverlap)
+		if hasOverlap {
+			overlapSimpleBitmap[glyphID>>3] |= 0x80 >> (glyphID & 7)
+		}
 	}
 
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(bitmapSize) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(bitmapSize)
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1157,18 +1158,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(bitmapSize + uint32(bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From 3a3fdb000e0b220ba977ab4b5fa38d12ae367e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 112/153] fix: WriteWOFF2 wrote the wrong bounding box for
 glyphs with a bounding box that differs from the points

---
 woff2.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/woff2.go b/woff2.go
index 6b79b0f..31bc4e6 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1060,22 +1060,20 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					xMax = x
 				}
 			}
-			if xMin == contour.XMin && xMax == contour.XMax {
-				for _, y := range contour.YCoordinates[1:] {
-					if y < yMin {
-						yMin = y
-					}
-					if yMax < y {
-						yMax = y
-					}
+			for _, y := range contour.YCoordinates[1:] {
+				if y < yMin {
+					yMin = y
 				}
-				if yMin == contour.YMin && yMax == contour.YMax {
-					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
+				if yMax < y {
+					yMax = y
 				}
 			}
+			if xMin == contour.XMin && xMax == contour.XMax && yMin == contour.YMin && yMax == contour.YMax {
+				bboxEqual = true
+			} else {
+				xMin, xMax = contour.XMin, contour.XMax
+				yMin, yMax = contour.YMin, contour.YMax
+			}
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From 10331757d011205802e3d0abae9ebba6f8a1729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 113/153] fix: WriteWOFF2 wrote bad coordinates for points that
 are more than 32767 units apart

---
 woff2.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/woff2.go b/woff2.go
index 31bc4e6..0ece5aa 100644
--- a/woff2.go
+++ b/woff2.go
@@ -972,6 +972,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				continue
 			}
 			xMins[glyphID] = contour.XMin
+			if contour.EndPoints[len(contour.EndPoints)-1] == math.MaxUint16 {
+				return nil, nil // cannot be transformed
+			}
 
 			// nContour and nPoints streams
 			nContourStream.WriteInt16(int16(len(contour.EndPoints)))
@@ -988,8 +991,14 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			for i := range contour.XCoordinates {
 				dx, dy := contour.XCoordinates[i], contour.YCoordinates[i]
 				if 0 < i {
-					dx -= contour.XCoordinates[i-1]
-					dy -= contour.YCoordinates[i-1]
+					prevX, prevY := contour.XCoordinates[i-1], contour.YCoordinates[i-1]
+					if deltaX, deltaY := int(dx)-int(prevX), int(dy)-int(prevY); deltaX < -math.MaxInt16 || math.MaxInt16 < deltaX || deltaY < -math.MaxInt16 || math.MaxInt16 < deltaY {
+						return nil, nil // cannot be transformed
+					}
+					dx -= prevX
+					dy -= prevY
+				} else if dx == math.MinInt16 || dy == math.MinInt16 {
+					return nil, nil // cannot be transformed
 				}
 				dxSign, dySign := byte(1), byte(1)
 				if dx < 0 {
-- 
2.43.0


From 667a5f08df7e377ff25d8f9f7940f5d49c6b10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 114/153] fix: WriteWOFF2 wrote a bad loca length for tables
 with more entries, and panicked for fonts with few tables

---
 woff2.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index 0ece5aa..7232cdc 100644
--- a/woff2.go
+++ b/woff2.go
@@ -860,10 +860,13 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 	_, hasGlyf := sfnt.Tables["glyf"]
 	_, hasLoca := sfnt.Tables["loca"]
 	_, hasHmtx := sfnt.Tables["hmtx"]
-	if hasGlyf && hasLoca {
+	_, hasHead := sfnt.Tables["head"]
+	_, hasHhea := sfnt.Tables["hhea"]
+	_, hasMaxp := sfnt.Tables["maxp"]
+	if hasGlyf && hasLoca && sfnt.Maxp != nil && sfnt.Glyf != nil && sfnt.Loca != nil {
 		var xMins []int16
 		glyf, xMins = transformGlyf(sfnt.NumGlyphs(), sfnt.Glyf, sfnt.Loca)
-		if glyf != nil && hasHmtx {
+		if glyf != nil && hasHmtx && hasHead && hasHhea && hasMaxp && sfnt.Hmtx != nil {
 			hmtx = transformHmtx(sfnt.Hmtx, xMins)
 		}
 	}
@@ -886,7 +889,15 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 		if tagIndex == -1 {
 			w.WriteString(tag) // tag
 		}
-		writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		if glyf != nil && tag == "loca" {
+			locaLength := (uint32(sfnt.NumGlyphs()) + 1) * 2 // original may have more entries
+			if sfnt.Loca.Format != 0 {
+				locaLength *= 2
+			}
+			writeUintBase128(w, locaLength)
+		} else {
+			writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		}
 		if glyf != nil && tag == "glyf" {
 			writeUintBase128(w, uint32(len(glyf)))
 		} else if glyf != nil && tag == "loca" {
-- 
2.43.0


From 996f507c357218e87d29810d275c931b40388235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 115/153] fix: WriteWOFF2 wrote the file size of the original
 as the size of the font

---
 woff2.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/woff2.go b/woff2.go
index 7232cdc..97f463c 100644
--- a/woff2.go
+++ b/woff2.go
@@ -831,30 +831,32 @@ func read255Uint16(r *parse.BinaryReader) (uint16, bool) {
 
 func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 	tags := make([]string, 0, len(sfnt.Tables))
-	for tag := range sfnt.Tables {
+	totalSfntSize := uint32(12)
+	for tag, table := range sfnt.Tables {
 		if tag == "DSIG" {
 			continue // exclude DSIG table
 		}
 		tags = append(tags, tag)
+		totalSfntSize += 16 + (uint32(len(table))+3)&^3
 	}
 	// TODO: (WOFF2) loca must follow glyf for TTC
 	sort.Strings(tags)
 
-	w := parse.NewBinaryWriter(make([]byte, 0, sfnt.Length*6/10)) // estimated size
-	w.WriteString("wOF2")                                         // signature
-	w.WriteString(sfnt.Version)                                   // flavor
-	w.WriteUint32(0)                                              // length (set later)
-	w.WriteUint16(uint16(len(tags)))                              // numTables
-	w.WriteUint16(0)                                              // reserved
-	w.WriteUint32(sfnt.Length)                                    // totalSfntSize
-	w.WriteUint32(0)                                              // totalCompressedSize (set later)
-	w.WriteUint16(1)                                              // majorVersion
-	w.WriteUint16(0)                                              // minorVersion
-	w.WriteUint32(0)                                              // metaOffset
-	w.WriteUint32(0)                                              // metaLength
-	w.WriteUint32(0)                                              // metaOrigLength
-	w.WriteUint32(0)                                              // privOffset
-	w.WriteUint32(0)                                              // privLength
+	w := parse.NewBinaryWriter(make([]byte, 0, totalSfntSize/2)) // estimated size
+	w.WriteString("wOF2")                                        // signature
+	w.WriteString(sfnt.Version)                                  // flavor
+	w.WriteUint32(0)                                             // length (set later)
+	w.WriteUint16(uint16(len(tags)))                             // numTables
+	w.WriteUint16(0)                                             // reserved
+	w.WriteUint32(totalSfntSize)                                 // totalSfntSize
+	w.WriteUint32(0)                                             // totalCompressedSize (set later)
+	w.WriteUint16(1)                                             // majorVersion
+	w.WriteUint16(0)                                             // minorVersion
+	w.WriteUint32(0)                                             // metaOffset
+	w.WriteUint32(0)                                             // metaLength
+	w.WriteUint32(0)                                             // metaOrigLength
+	w.WriteUint32(0)                                             // privOffset
+	w.WriteUint32(0)                                             // privLength
 
 	var glyf, hmtx []byte
 	_, hasGlyf := sfnt.Tables["glyf"]
-- 
2.43.0


From fdefa1798876da573632c4affa20a429299c2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:31 +0000
Subject: [PATCH 116/153] fix: FromGoFreetype wrote fonts without glyf or with
 vmtx but no vhea, that ParseSFNT rejects

---
 font.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index 667141b..03b360e 100644
--- a/font.go
+++ b/font.go
@@ -125,7 +125,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	tables["name"] = v.FieldByName("name").Bytes()
 	tables["OS/2"] = v.FieldByName("os2").Bytes()
 	tables["prep"] = v.FieldByName("prep").Bytes()
-	tables["vmtx"] = v.FieldByName("vmtx").Bytes()
+	// vmtx is of no use (and invalid) without vhea, which is not kept by truetype.Font
 
 	// reconstruct missing post table
 	post := parse.NewBinaryWriter([]byte{})
@@ -140,10 +140,10 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	post.WriteUint32(0)          // maxMemType1
 	tables["post"] = post.Bytes()
 
-	// remove empty tables
+	// remove empty tables, but glyf is required and is empty when all glyphs are empty
 	tags := []string{}
 	for tag, table := range tables {
-		if 0 < len(table) {
+		if 0 < len(table) || tag == "glyf" {
 			tags = append(tags, tag)
 		}
 	}
-- 
2.43.0


From 9efa3d2c1526854aac0d5377767276b609f3b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 117/153] fix: ParseAFM read negative numbers wrong, ignored
 malformed numbers and errors in the kern data

---
 afm.go | 137 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 53 deletions(-)

diff --git a/afm.go b/afm.go
index e6dff80..964f151 100644
--- a/afm.go
+++ b/afm.go
@@ -5,9 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"math"
-	stdStrconv "strconv"
-
-	"github.com/tdewolff/parse/v2/strconv"
+	"strconv"
 )
 
 type AFMCharMetrics struct {
@@ -26,9 +24,9 @@ type AFM struct {
 
 	CapHeight          uint16
 	XHeight            uint16
-	Ascender           uint16
-	Descender          uint16
-	UnderlinePosition  uint16
+	Ascender           int16
+	Descender          int16
+	UnderlinePosition  int16
 	UnderlineThickness uint16
 	ItalicAngle        float64
 	CharWidth          [2]uint16
@@ -115,16 +113,37 @@ func afmParseString(b []byte, i int) (string, int) {
 	return string(v), i
 }
 
-func afmParseInteger(b []byte, i int) (int, int) {
-	i = afmSkipWhitespace(b, i)
-	v, n := strconv.ParseInt(b[i:])
-	return int(v), i + n
+func afmParseInteger(b []byte, i int) (int, int, error) {
+	s, i := afmParseString(b, i)
+	v, err := strconv.ParseInt(s, 10, 32)
+	return int(v), i, err
 }
 
-func afmParseNumber(b []byte, i int) (float64, int) {
-	i = afmSkipWhitespace(b, i)
-	v, n := strconv.ParseDecimal(b[i:])
-	return v, i + n
+func afmParseNumber(b []byte, i int) (float64, int, error) {
+	s, i := afmParseString(b, i)
+	v, err := strconv.ParseFloat(s, 64)
+	if err == nil && (math.IsNaN(v) || math.IsInf(v, 0)) {
+		err = fmt.Errorf("invalid number %v", s)
+	}
+	return v, i, err
+}
+
+func afmParseInt16(b []byte, i int) (int16, int, error) {
+	v, i, err := afmParseNumber(b, i)
+	v = math.Round(v)
+	if err == nil && (v < math.MinInt16 || math.MaxInt16 < v) {
+		err = fmt.Errorf("number %v out of range", v)
+	}
+	return int16(v), i, err
+}
+
+func afmParseUint16(b []byte, i int) (uint16, int, error) {
+	v, i, err := afmParseNumber(b, i)
+	v = math.Round(v)
+	if err == nil && (v < 0 || math.MaxUint16 < v) {
+		err = fmt.Errorf("number %v out of range", v)
+	}
+	return uint16(v), i, err
 }
 
 type afmLigature struct {
@@ -150,13 +169,16 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		val, pos := afmNextValue(line, 0)
 		switch string(val) {
 		case "C":
-			charMetrics.CharacterCode, pos = afmParseInteger(line, pos)
+			var err error
+			if charMetrics.CharacterCode, pos, err = afmParseInteger(line, pos); err != nil {
+				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
+			}
 		case "CH":
 			pos = afmSkipWhitespace(line, pos)
 			val, pos = afmNextValue(line, pos)
 			if len(val) < 3 || val[0] != '<' || val[len(val)-1] != '>' {
 				return fmt.Errorf("afm: invalid char metrics at line %v: expected <hex>", *j)
-			} else if v, err := stdStrconv.ParseInt(string(val[1:len(val)-1]), 16, 0); err != nil {
+			} else if v, err := strconv.ParseInt(string(val[1:len(val)-1]), 16, 0); err != nil {
 				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
 			} else {
 				charMetrics.CharacterCode = int(v)
@@ -175,19 +197,17 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
 			}
 
-			var f float64
+			var err error
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
 			case "WX", "WY":
-				f, pos = afmParseNumber(line, pos)
-				charMetrics.Width = uint16(f + 0.5)
+				charMetrics.Width, pos, err = afmParseUint16(line, pos)
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
-				for k := 0; k < 4; k++ {
-					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(f + 0.5)
+				for k := 0; k < 4 && err == nil; k++ {
+					charMetrics.BBox[k], pos, err = afmParseInt16(line, pos)
 				}
 			case "L":
 				var successor, ligature string
@@ -197,6 +217,9 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			default:
 				return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
 			}
+			if err != nil {
+				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
+			}
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
@@ -234,14 +257,23 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
 		case "StartTrackKern":
-			n, _ := afmParseInteger(line, pos)
-			afm.parseTrackKern(scanner, j, n)
-		case "StartKernPairs", "StartKernPairs0":
-			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 0)
-		case "StartKernPairs1":
-			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 1)
+			n, _, err := afmParseInteger(line, pos)
+			if err != nil {
+				return fmt.Errorf("afm: invalid kern data at line %v: %v", *j, err)
+			} else if err := afm.parseTrackKern(scanner, j, n); err != nil {
+				return err
+			}
+		case "StartKernPairs", "StartKernPairs0", "StartKernPairs1":
+			writingDirection := 0
+			if string(key) == "StartKernPairs1" {
+				writingDirection = 1
+			}
+			n, _, err := afmParseInteger(line, pos)
+			if err != nil {
+				return fmt.Errorf("afm: invalid kern data at line %v: %v", *j, err)
+			} else if err := afm.parseKernPairs(scanner, j, n, writingDirection); err != nil {
+				return err
+			}
 		case "EndKernData":
 			return nil
 		}
@@ -285,16 +317,17 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 		// TODO: KP, KPH, KPY
 		case "KPX":
 			var left, right string
-			var kern float64
 			left, pos = afmParseString(line, pos)
 			right, pos = afmParseString(line, pos)
-			kern, pos = afmParseNumber(line, pos)
-			if l, ok := afm.names[left]; !ok {
+			kern, _, err := afmParseInt16(line, pos)
+			if err != nil {
+				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
+			} else if l, ok := afm.names[left]; !ok {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, left)
 			} else if r, ok := afm.names[right]; !ok {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, right)
 			} else {
-				afm.KernPairs[[2]uint16{l, r}] = int16(math.Round(kern))
+				afm.KernPairs[[2]uint16{l, r}] = kern
 			}
 		}
 	}
@@ -320,7 +353,7 @@ func ParseAFM(b []byte) (*AFM, error) {
 Scanner:
 	for scanner.Scan() {
 		j++
-		var f float64
+		var err error
 		line := scanner.Bytes()
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
@@ -333,33 +366,28 @@ Scanner:
 		case "Weight":
 			afm.Weight, _ = afmParseString(line, pos)
 		case "FontBBox":
-			for k := 0; k < 4; k++ {
-				f, pos = afmParseNumber(line, pos)
-				afm.FontBBox[k] = int16(math.Round(f))
+			for k := 0; k < 4 && err == nil; k++ {
+				afm.FontBBox[k], pos, err = afmParseInt16(line, pos)
 			}
 		case "CapHeight":
-			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(f + 0.5)
+			afm.CapHeight, _, err = afmParseUint16(line, pos)
 		case "XHeight":
-			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(f + 0.5)
+			afm.XHeight, _, err = afmParseUint16(line, pos)
 		case "Ascender":
-			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(f + 0.5)
+			afm.Ascender, _, err = afmParseInt16(line, pos)
 		case "Descender":
-			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(f + 0.5)
+			afm.Descender, _, err = afmParseInt16(line, pos)
 		case "UnderlinePosition":
-			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(f + 0.5)
+			afm.UnderlinePosition, _, err = afmParseInt16(line, pos)
 		case "UnderlineThickness":
-			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(f + 0.5)
+			afm.UnderlineThickness, _, err = afmParseUint16(line, pos)
 		case "ItalicAngle":
-			afm.ItalicAngle, _ = afmParseNumber(line, pos)
+			afm.ItalicAngle, _, err = afmParseNumber(line, pos)
 		case "StartCharMetrics":
-			n, _ := afmParseInteger(line, pos)
-			if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
+			n, _, err := afmParseInteger(line, pos)
+			if err != nil {
+				return nil, fmt.Errorf("afm: invalid char metrics at line %v: %v", j, err)
+			} else if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
 				return nil, err
 			}
 		case "StartKernData":
@@ -371,6 +399,9 @@ Scanner:
 		default:
 			// no-op
 		}
+		if err != nil {
+			return nil, fmt.Errorf("afm: invalid font metrics at line %v: %v", j, err)
+		}
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 4aaa990d3f1f0547d1516c1ce504beeca8e1b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 118/153] fix: ParseAFM panicked or ran out of memory for bad
 numbers of char metrics or kern pairs

---
 afm.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/afm.go b/afm.go
index 964f151..bd068cb 100644
--- a/afm.go
+++ b/afm.go
@@ -153,10 +153,14 @@ type afmLigature struct {
 }
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
+	if n < 0 || math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: bad number of char metrics %v", *j, n)
+	}
+
 	var ligatures []afmLigature
-	afm.CharMetrics = make([]AFMCharMetrics, n)
-	afm.names = make(map[string]uint16, n)
-	afm.unicode = make(map[rune]uint16, n)
+	afm.CharMetrics = nil // grow with the lines that are present, n could be too large
+	afm.names = map[string]uint16{}
+	afm.unicode = map[rune]uint16{}
 	for i := 0; i < n; i++ {
 		*j++
 		if !scanner.Scan() {
@@ -165,6 +169,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		line := scanner.Bytes()
 
 		var name string
+		afm.CharMetrics = append(afm.CharMetrics, AFMCharMetrics{})
 		charMetrics := &afm.CharMetrics[i]
 		val, pos := afmNextValue(line, 0)
 		switch string(val) {
@@ -299,8 +304,10 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 }
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
-	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+	if n < 0 {
+		return fmt.Errorf("afm: invalid kern data at line %v: bad number of kern pairs %v", *j, n)
+	} else if afm.KernPairs == nil {
+		afm.KernPairs = map[[2]uint16]int16{} // grow with the lines that are present, n could be too large
 	}
 	for i := 0; i < n; i++ {
 		*j++
-- 
2.43.0


From 5544edb30c5f08ca2fe3e7a37525030eef0aa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 119/153] fix: ParseAFM lost glyph names and all but the first
 word of font names, and rejected names without code point

---
 afm.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/afm.go b/afm.go
index bd068cb..e19f89f 100644
--- a/afm.go
+++ b/afm.go
@@ -146,6 +146,11 @@ func afmParseUint16(b []byte, i int) (uint16, int, error) {
 	return uint16(v), i, err
 }
 
+// afmParseText returns the rest of the line.
+func afmParseText(b []byte, i int) string {
+	return string(bytes.TrimSpace(b[i:]))
+}
+
 type afmLigature struct {
 	base      uint16
 	successor string
@@ -228,10 +233,11 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
-		} else if r, ok := glyphList[name]; !ok {
-			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
-		} else {
-			afm.names[name] = uint16(i)
+		}
+		charMetrics.Name = name
+		afm.names[name] = uint16(i)
+		if r, ok := glyphList[name]; ok {
+			// other names, such as .notdef, are valid but have no code point
 			afm.unicode[r] = uint16(i)
 		}
 	}
@@ -367,11 +373,11 @@ Scanner:
 		case "FontName":
 			afm.FontName, _ = afmParseString(line, pos)
 		case "FullName":
-			afm.FullName, _ = afmParseString(line, pos)
+			afm.FullName = afmParseText(line, pos)
 		case "FamilyName":
-			afm.FamilyName, _ = afmParseString(line, pos)
+			afm.FamilyName = afmParseText(line, pos)
 		case "Weight":
-			afm.Weight, _ = afmParseString(line, pos)
+			afm.Weight = afmParseText(line, pos)
 		case "FontBBox":
 			for k := 0; k < 4 && err == nil; k++ {
 				afm.FontBBox[k], pos, err = afmParseInt16(line, pos)
-- 
2.43.0


From 98770204ff55e4305f10665746f18c87e629f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:21 +0000
Subject: [PATCH 120/153] fix: ParseAFM took the vertical width as width,
 rejected valid widths and ignored IsFixedPitch and CharWidth

---
 afm.go | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/afm.go b/afm.go
index e19f89f..1f962d2 100644
--- a/afm.go
+++ b/afm.go
@@ -65,9 +65,7 @@ func (afm *AFM) FindGlyphName(name string) uint16 {
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (afm *AFM) GlyphAdvance(glyphID uint16) uint16 {
-	if afm.IsFixedPitch {
-		return afm.CharWidth[0]
-	} else if len(afm.CharMetrics) <= int(glyphID) {
+	if len(afm.CharMetrics) <= int(glyphID) {
 		return 0
 	}
 	return afm.CharMetrics[glyphID].Width
@@ -174,7 +172,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		line := scanner.Bytes()
 
 		var name string
-		afm.CharMetrics = append(afm.CharMetrics, AFMCharMetrics{})
+		afm.CharMetrics = append(afm.CharMetrics, AFMCharMetrics{Width: afm.CharWidth[0]}) // unless a width is given
 		charMetrics := &afm.CharMetrics[i]
 		val, pos := afmNextValue(line, 0)
 		switch string(val) {
@@ -201,18 +199,31 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			pos = afmSkipWhitespace(line, pos)
 			val, pos = afmNextValue(line, pos)
 			pos = afmSkipWhitespace(line, pos)
-			if pos == len(line) {
-				continue
+			if len(val) == 0 && pos == len(line) {
+				continue // trailing whitespace
 			} else if string(val) != ";" {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
+			} else if pos == len(line) {
+				continue
 			}
 
 			var err error
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
-			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
-			case "WX", "WY":
+			// TODO: vertical metrics
+			case "WX", "W0X":
 				charMetrics.Width, pos, err = afmParseUint16(line, pos)
+			case "W", "W0":
+				if charMetrics.Width, pos, err = afmParseUint16(line, pos); err == nil {
+					_, pos, err = afmParseNumber(line, pos)
+				}
+			case "WY", "W0Y", "W1X", "W1Y":
+				// not the horizontal width
+				_, pos, err = afmParseNumber(line, pos)
+			case "W1", "VV":
+				for k := 0; k < 2 && err == nil; k++ {
+					_, pos, err = afmParseNumber(line, pos)
+				}
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
@@ -363,13 +374,33 @@ func ParseAFM(b []byte) (*AFM, error) {
 
 	j := 1 // line number
 	afm := &AFM{}
+	vertical := false // metrics for vertical writing are ignored
 Scanner:
 	for scanner.Scan() {
 		j++
 		var err error
 		line := scanner.Bytes()
 		key, pos := afmNextValue(line, 0)
+		if vertical && string(key) != "EndDirection" {
+			continue
+		}
 		switch string(key) {
+		case "StartDirection":
+			var direction int
+			direction, _, err = afmParseInteger(line, pos)
+			vertical = direction == 1
+		case "EndDirection":
+			vertical = false
+		case "CharWidth":
+			if afm.CharWidth[0], pos, err = afmParseUint16(line, pos); err == nil {
+				afm.CharWidth[1], _, err = afmParseUint16(line, pos)
+			}
+		case "IsFixedPitch":
+			val, _ := afmParseString(line, pos)
+			if val != "true" && val != "false" {
+				err = fmt.Errorf("expected true or false")
+			}
+			afm.IsFixedPitch = val == "true"
 		case "FontName":
 			afm.FontName, _ = afmParseString(line, pos)
 		case "FullName":
-- 
2.43.0


From 3686217b484658b346349a20068140a27b9f9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:49 +0000
Subject: [PATCH 121/153] fix: ParseAFM rejected comments in sections, ignored
 unknown kern pairs and accepted truncated files

---
 afm.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/afm.go b/afm.go
index 1f962d2..74a7d91 100644
--- a/afm.go
+++ b/afm.go
@@ -155,6 +155,17 @@ type afmLigature struct {
 	ligature  string
 }
 
+// afmScan goes to the next line that is not empty or a comment.
+func afmScan(scanner *bufio.Scanner, j *int) bool {
+	for scanner.Scan() {
+		*j++
+		if key, _ := afmNextValue(scanner.Bytes(), 0); len(key) != 0 && string(key) != "Comment" {
+			return true
+		}
+	}
+	return false
+}
+
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 	if n < 0 || math.MaxUint16 < n {
 		return fmt.Errorf("afm: invalid char metrics at line %v: bad number of char metrics %v", *j, n)
@@ -165,8 +176,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 	afm.names = map[string]uint16{}
 	afm.unicode = map[rune]uint16{}
 	for i := 0; i < n; i++ {
-		*j++
-		if !scanner.Scan() {
+		if !afmScan(scanner, j) {
 			return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 		}
 		line := scanner.Bytes()
@@ -252,8 +262,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			afm.unicode[r] = uint16(i)
 		}
 	}
-	*j++
-	if !scanner.Scan() {
+	if !afmScan(scanner, j) {
 		return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 	} else if val, _ := afmNextValue(scanner.Bytes(), 0); string(val) != "EndCharMetrics" {
 		return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
@@ -305,14 +314,12 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 
 func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 	for i := 0; i < n; i++ {
-		*j++
-		if !scanner.Scan() {
+		if !afmScan(scanner, j) {
 			return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 		}
 		// TODO
 	}
-	*j++
-	if !scanner.Scan() {
+	if !afmScan(scanner, j) {
 		return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 	} else if val, _ := afmNextValue(scanner.Bytes(), 0); string(val) != "EndTrackKern" {
 		return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
@@ -327,8 +334,7 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 		afm.KernPairs = map[[2]uint16]int16{} // grow with the lines that are present, n could be too large
 	}
 	for i := 0; i < n; i++ {
-		*j++
-		if !scanner.Scan() {
+		if !afmScan(scanner, j) {
 			return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 		} else if writingDirection != 0 {
 			// TODO: support writingDirection != 0
@@ -338,8 +344,8 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
-		// TODO: KP, KPH, KPY
-		case "KPX":
+		// TODO: KPH
+		case "KPX", "KP":
 			var left, right string
 			left, pos = afmParseString(line, pos)
 			right, pos = afmParseString(line, pos)
@@ -353,10 +359,13 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 			} else {
 				afm.KernPairs[[2]uint16{l, r}] = kern
 			}
+		case "KPY":
+			// not horizontal
+		default:
+			return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(key))
 		}
 	}
-	*j++
-	if !scanner.Scan() {
+	if !afmScan(scanner, j) {
 		return fmt.Errorf("afm: invalid char metrics at line %v", *j)
 	} else if val, _ := afmNextValue(scanner.Bytes(), 0); string(val) != "EndKernPairs" {
 		return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
@@ -374,6 +383,7 @@ func ParseAFM(b []byte) (*AFM, error) {
 
 	j := 1 // line number
 	afm := &AFM{}
+	hasEnd := false
 	vertical := false // metrics for vertical writing are ignored
 Scanner:
 	for scanner.Scan() {
@@ -439,6 +449,7 @@ Scanner:
 				return nil, err
 			}
 		case "EndFontMetrics":
+			hasEnd = true
 			break Scanner
 		default:
 			// no-op
@@ -449,6 +460,8 @@ Scanner:
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
+	} else if !hasEnd {
+		return nil, fmt.Errorf("afm: missing EndFontMetrics")
 	}
 	return afm, nil
 }
-- 
2.43.0


From a1aa0bbef8403e647d34aefc65cd69a0f672ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 122/153] fix: ParseAFM did not read files with carriage
 returns as line endings or with long lines

---
 afm.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/afm.go b/afm.go
index 74a7d91..605867f 100644
--- a/afm.go
+++ b/afm.go
@@ -155,6 +155,18 @@ type afmLigature struct {
 	ligature  string
 }
 
+// afmScanLines splits lines at any of \n, \r\n, and \r.
+func afmScanLines(data []byte, atEOF bool) (int, []byte, error) {
+	if i := bytes.IndexAny(data, "\r\n"); i != -1 && data[i] == '\r' && i+1 < len(data) && data[i+1] == '\n' {
+		return i + 2, data[:i], nil
+	} else if i != -1 && (data[i] == '\n' || i+1 < len(data) || atEOF) {
+		return i + 1, data[:i], nil
+	} else if atEOF && len(data) != 0 {
+		return len(data), data, nil
+	}
+	return 0, nil, nil
+}
+
 // afmScan goes to the next line that is not empty or a comment.
 func afmScan(scanner *bufio.Scanner, j *int) bool {
 	for scanner.Scan() {
@@ -375,6 +387,8 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 
 func ParseAFM(b []byte) (*AFM, error) {
 	scanner := bufio.NewScanner(bytes.NewReader(b))
+	scanner.Buffer(nil, len(b)+1)
+	scanner.Split(afmScanLines)
 	if !scanner.Scan() {
 		return nil, fmt.Errorf("invalid AFM file")
 	} else if key, _ := afmNextValue(scanner.Bytes(), 0); string(key) != "StartFontMetrics" {
-- 
2.43.0


From 4029c94670c9d2c7c308ab9189e63ce02a3cf0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:52 +0000
Subject: [PATCH 123/153] fix: kern: check the length of the table header of
 version 1.0

---
 sfnt_truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index d97f6f0..ce8eaf8 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -614,6 +614,9 @@ func (sfnt *SFNT) parseKern() error {
 	if majorVersion == 0 {
 		nTables = uint32(r.ReadUint16())
 	} else if majorVersion == 1 {
+		if len(b) < 8 {
+			return fmt.Errorf("kern: bad table")
+		}
 		minorVersion := r.ReadUint16()
 		if minorVersion != 0 {
 			return fmt.Errorf("kern: bad minor version %d", minorVersion)
-- 
2.43.0


From 0b6a7e0e863a40d1977e1608718bcd12b1d5999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 124/153] fix: CFF: panic on hmoveto and vmoveto without
 operands

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1c73abc..9c405e6 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -469,7 +469,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					if b0 == cffHmoveto || b0 == cffVmoveto {
 						hasWidth = !hasWidth
 					}
-					if hasWidth {
+					if hasWidth && 0 < len(stack) {
 						stack = stack[1:]
 					}
 					if b0 == cffRmoveto || b0 == cffHmoveto || b0 == cffVmoveto {
-- 
2.43.0


From 900924fdea64fd766be558a273fa18cdc33523d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 125/153] fix: cmap: reject all subtables that overlap, they
 multiplied the memory used for parsing

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 04adbdb..b782e13 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -487,7 +487,7 @@ func (sfnt *SFNT) parseCmap() error {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-			if offsets[i] < offset && offset < lengths[i] {
+			if offsets[i] < offset && offset < offsets[i]+lengths[i] {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
 		}
-- 
2.43.0


From af4a5bc68ac45915e512216e15634e87d72f6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 126/153] fix: CFF: share glyph names that refer to the same
 string, long strings exhausted the memory

---
 sfnt_cff.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9c405e6..4c7a8b1 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -128,6 +128,17 @@ func (sfnt *SFNT) parseCFF() error {
 		charset = make([]string, numGlyphs)
 		charset[0] = ".notdef"
 
+		// copy each string only once, many glyphs may refer to the same long string
+		names := map[int]string{}
+		getName := func(sid int) string {
+			name, ok := names[sid]
+			if !ok {
+				name = stringINDEX.GetSID(sid)
+				names[sid] = name
+			}
+			return name
+		}
+
 		format := r.ReadUint8()
 		switch format {
 		case 0:
@@ -136,7 +147,7 @@ func (sfnt *SFNT) parseCFF() error {
 			}
 			for i := 1; i < numGlyphs; i++ {
 				sid := r.ReadUint16()
-				charset[i] = stringINDEX.GetSID(int(sid))
+				charset[i] = getName(int(sid))
 			}
 		case 1, 2:
 			for i := 1; i < numGlyphs; i++ {
@@ -154,7 +165,7 @@ func (sfnt *SFNT) parseCFF() error {
 					return fmt.Errorf("CFF: bad Charset format %d", format)
 				}
 				for j := 0; j < nLeft+1; j++ {
-					charset[i+j] = stringINDEX.GetSID(first + j)
+					charset[i+j] = getName(first + j)
 				}
 				i += nLeft
 			}
-- 
2.43.0


From 608b68d2b45b74b01789d4c16aa65e6b3318bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 127/153] fix: CFF: parse local subroutines shared by Font
 DICTs once, they multiplied the memory used for parsing

---
 sfnt_cff.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4c7a8b1..eda1c94 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2104,6 +2104,11 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		return nil, fmt.Errorf("Font INDEX: %w", err)
 	}
 
+	if !isCFF2 && math.MaxUint8+1 < fontINDEX.Len() {
+		return nil, fmt.Errorf("Font INDEX: too many Font DICTs") // FDSelect cannot refer to them
+	}
+
+	localSubrs := map[int64]*cffINDEX{} // Font DICTs may share their local subroutines
 	fonts := &cffFontINDEX{}
 	fonts.private = make([]*cffPrivateDICT, fontINDEX.Len())
 	fonts.localSubrs = make([]*cffINDEX, fontINDEX.Len())
@@ -2125,11 +2130,15 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			if privateDICT.Subrs < 0 || len(b)-fontDICT.PrivateOffset <= privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
-			fonts.localSubrs[i], err = parseINDEX(r, isCFF2)
-			if err != nil {
-				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
+			offset := int64(fontDICT.PrivateOffset) + int64(privateDICT.Subrs)
+			if _, ok := localSubrs[offset]; !ok {
+				r.Seek(offset, 0)
+				localSubrs[offset], err = parseINDEX(r, isCFF2)
+				if err != nil {
+					return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
+				}
 			}
+			fonts.localSubrs[i] = localSubrs[offset]
 		} else if isCFF2 {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
 		} else {
-- 
2.43.0


From 5b7bd3fc610aa0e293e854577306aa221034c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 128/153] fix: expanding generic families in SystemFonts.Match
 wrote beyond the generic's list

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e329acf..a0ab275 100644
--- a/system.go
+++ b/system.go
@@ -325,7 +325,7 @@ func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	for i := 0; i < len(families); i++ {
 		families[i] = strings.TrimSpace(families[i])
 		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
+			families = append(families[:i:i], append(append([]string{}, names...), families[i+1:]...)...)
 			i += len(names) - 1
 		}
 	}
-- 
2.43.0


From ae7b596813a824ac3cdfcdfdb9550f8dc22fa6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:47 +0000
Subject: [PATCH 129/153] fix: SystemFonts.Add panicked for an empty index that
 was saved and loaded

---
 system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/system.go b/system.go
index a0ab275..c7e8a1a 100644
--- a/system.go
+++ b/system.go
@@ -313,6 +313,9 @@ func (s *SystemFonts) Save(filename string) error {
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
+	if s.Fonts == nil {
+		s.Fonts = map[string]map[Style]FontMetadata{}
+	}
 	if _, ok := s.Fonts[metadata.Family]; !ok {
 		s.Fonts[metadata.Family] = map[Style]FontMetadata{}
 	}
-- 
2.43.0


From 53c8ed178a5101a3a722ee0680ef12004e2d0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 130/153] fix: close the files of the saved system fonts index

---
 system.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/system.go b/system.go
index c7e8a1a..2b719c7 100644
--- a/system.go
+++ b/system.go
@@ -294,6 +294,8 @@ func LoadSystemFonts(filename string) (*SystemFonts, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
+
 	fonts := &SystemFonts{}
 	if err = gob.NewDecoder(f).Decode(fonts); err != nil {
 		return nil, err
@@ -307,9 +309,10 @@ func (s *SystemFonts) Save(filename string) error {
 		return err
 	}
 	if err = gob.NewEncoder(f).Encode(s); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
-- 
2.43.0


From 82e261db7f5b5705bc9e7c240260b187976498c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 131/153] fix: an unreadable directory made FindSystemFonts
 fail for all fonts

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 2b719c7..e0b5585 100644
--- a/system.go
+++ b/system.go
@@ -439,7 +439,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 		return fs.WalkDir(os.DirFS(dir), ".", func(path string, d fs.DirEntry, err error) error {
 			path = filepath.Join(dir, path)
 			if err != nil {
-				return err
+				return nil // skip unreadable files and directories
 			} else if d.IsDir() {
 				if walkedDirs[path] {
 					return filepath.SkipDir
-- 
2.43.0


From 2d5116e53198577df68e32a7f45078f861950aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 132/153] fix: FindSystemFonts panicked for directories that
 cannot be inspected

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e0b5585..8c722d6 100644
--- a/system.go
+++ b/system.go
@@ -477,7 +477,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 
 	var Err error
 	for _, dir := range dirs {
-		if info, err := os.Stat(dir); os.IsNotExist(err) {
+		if info, err := os.Stat(dir); err != nil {
 			continue
 		} else if !info.IsDir() {
 			continue
-- 
2.43.0


From d00bc28c26eabb834d701fd1a389f157ab780886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 133/153] fix: FindSystemFonts missed font files with an upper
 case extension

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 8c722d6..4f4c2e1 100644
--- a/system.go
+++ b/system.go
@@ -451,7 +451,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 			}
 
 			var getMetadata func(io.ReadSeeker) (FontMetadata, error)
-			switch filepath.Ext(path) {
+			switch strings.ToLower(filepath.Ext(path)) {
 			case ".ttf", ".otf":
 				getMetadata = getSFNTMetadata
 				// TODO: handle .ttc, .woff, .woff2, .eot
-- 
2.43.0


From d794131f2e0a0d49deb898a16997958ceb23cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 134/153] fix: XDG_DATA_DIRS is a list of directories

---
 system.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/system.go b/system.go
index 4f4c2e1..725cbcd 100644
--- a/system.go
+++ b/system.go
@@ -31,8 +31,10 @@ func DefaultFontDirs() []string {
 		if xdgDataHome := os.Getenv("XDG_DATA_HOME"); xdgDataHome != "" {
 			dirs = append(dirs, filepath.Join(xdgDataHome, "fonts"))
 		}
-		if xdgDataDirs := os.Getenv("XDG_DATA_DIRS"); xdgDataDirs != "" {
-			dirs = append(dirs, filepath.Join(xdgDataDirs, "fonts"))
+		for _, xdgDataDir := range filepath.SplitList(os.Getenv("XDG_DATA_DIRS")) {
+			if xdgDataDir != "" {
+				dirs = append(dirs, filepath.Join(xdgDataDir, "fonts"))
+			}
 		}
 	case "android":
 		dirs = []string{
-- 
2.43.0


From ced029cfdc7ca1f4c183334dcd5ae3327fc7bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 135/153] fix: system fonts were listed by their name in
 another language or by garbled Macintosh names

---
 system.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/system.go b/system.go
index 725cbcd..52aac2c 100644
--- a/system.go
+++ b/system.go
@@ -557,15 +557,21 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			return FontMetadata{}, err
 		}
 
-		found := 0
 		var family, subfamily string
+		var familyRank, subfamilyRank int
 		for i := 0; i < 12*int(count); i += 12 {
 			// TODO: check platform and encoding?
 			platform := PlatformID(u16(records[i:]))
 			//encoding := EncodingID(u16(records[i+2:]))
 			language := u16(records[i+4:])
-			if platform != PlatformWindows && (language&0x00FF) != 0x0009 {
-				continue // not English or not Windows
+			if platform != PlatformWindows {
+				continue // not UTF-16
+			}
+
+			// English takes precedence over other languages
+			rank := 0
+			if language < 0x8000 && (language&0x00FF) == 0x0009 {
+				rank = 2
 			}
 
 			name := NameID(u16(records[i+6:]))
@@ -583,16 +589,15 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 				if err != nil {
 					return FontMetadata{}, err
 				}
-				if name == NameFontFamily || name == NamePreferredFamily {
-					family = string(val)
-				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
-					subfamily = string(val)
-				}
 				if name == NamePreferredFamily || name == NamePreferredSubfamily {
-					found++
-					//if found == 2 {
-					//	break // break early
-					//}
+					rank++ // takes precedence over the legacy name
+				}
+				if name == NameFontFamily || name == NamePreferredFamily {
+					if familyRank <= rank {
+						family, familyRank = string(val), rank
+					}
+				} else if subfamilyRank <= rank {
+					subfamily, subfamilyRank = string(val), rank
 				}
 			}
 		}
-- 
2.43.0


From 0b60ee34adfa38046adb2b4d34c6ee92ce2ddf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:42 +0000
Subject: [PATCH 136/153] fix: system fonts with a name table of version 1 had
 no family and style

---
 system.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/system.go b/system.go
index 52aac2c..73241d1 100644
--- a/system.go
+++ b/system.go
@@ -551,7 +551,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 	metadata := FontMetadata{}
 	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
+	if version == 0 || version == 1 {
 		records, err := read(r, 12*int(count))
 		if err != nil {
 			return FontMetadata{}, err
@@ -612,8 +612,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		metadata.Family = family
 		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	} else {
+		return FontMetadata{}, fmt.Errorf("unsupported name table version: %d", version)
 	}
 	return metadata, nil
 }
-- 
2.43.0


From fd32b5e027cf3c738d60bbd28465679e2ebdcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 137/153] fix: fontcmd: subsetting by Unicode class did not end
 or selected characters outside of the class

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..f991bfd 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -258,7 +258,7 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
+			for r := uint32(ran.Lo); r <= uint32(ran.Hi); r += uint32(ran.Stride) { // cannot overflow
 				glyphID := sfnt.GlyphIndex(rune(r))
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
-- 
2.43.0


From ce40903b15e1d0dde8a059b122fb4d8740298e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 138/153] fix: fontcmd: glyph IDs above 32767 could not be
 selected

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index f991bfd..c1a1083 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -55,11 +55,11 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseInt(glyph[:dash], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseInt(glyph[dash+1:], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
@@ -71,7 +71,7 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseInt(glyph, 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-- 
2.43.0


From 1294c5eba427d73435a51b87b04933dd4ed87a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:03 +0000
Subject: [PATCH 139/153] fix: fontcmd: truncated escape sequences panicked

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index c1a1083..41754e9 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -138,7 +138,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -149,7 +149,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
@@ -160,7 +160,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
-- 
2.43.0


From 0aa8720545c236e07f2bed930bbd66c7f5380ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 140/153] fix: fontcmd: ranges to characters beyond Unicode did
 not end

---
 cmd/fontcmd/subset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 41754e9..60fa21d 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -153,7 +153,7 @@ func (cmd *Subset) Run() error {
 					}
 				case 'U':
 					if i+9 < len(runes) {
-						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok {
+						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok && h <= unicode.MaxRune {
 							r = rune(h)
 							i += 9
 						} else {
@@ -220,7 +220,7 @@ func (cmd *Subset) Run() error {
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
 			}
-			if last < first || first < 0 {
+			if last < first || first < 0 || unicode.MaxRune < last {
 				return fmt.Errorf("invalid unicode range: U+%4X-U+%4X\n", first, last)
 			}
 			for first != last+1 {
-- 
2.43.0


From 56b1ef9d749c30eddb3894f3f35afb11dac13b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 141/153] fix: fontcmd: a dash given by its code was taken for
 a range of characters

---
 cmd/fontcmd/subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 60fa21d..0ed6ae4 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -134,6 +134,7 @@ func (cmd *Subset) Run() error {
 						if h, ok := parseHexRunes(runes[i+2 : i+4]); ok {
 							r = rune(h)
 							i += 3
+							escaped = true
 						} else {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
@@ -145,6 +146,7 @@ func (cmd *Subset) Run() error {
 						if h, ok := parseHexRunes(runes[i+2 : i+6]); ok {
 							r = rune(h)
 							i += 5
+							escaped = true
 						} else {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
@@ -156,6 +158,7 @@ func (cmd *Subset) Run() error {
 						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok && h <= unicode.MaxRune {
 							r = rune(h)
 							i += 9
+							escaped = true
 						} else {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
-- 
2.43.0


From c387aad268dca52e210cd87595e9efa17cec06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 142/153] fix: fontcmd: reversed character ranges are an error,
 like those of glyph IDs and code points

---
 cmd/fontcmd/subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 0ed6ae4..bd059b9 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -172,6 +172,9 @@ func (cmd *Subset) Run() error {
 			if prev != -1 && r == '-' && !escaped {
 				rangeChars = true
 			} else if rangeChars {
+				if r < prev {
+					return fmt.Errorf("invalid character range: %s-%s", printableRune(prev), printableRune(r))
+				}
 				for i := prev + 1; i <= r; i++ {
 					glyphID := sfnt.GlyphIndex(i)
 					if glyphID == 0 {
-- 
2.43.0


From 3207f8e158f958187a3dd2e6b7eb4e6646f75543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 143/153] fix: fontcmd: an unknown encoding was ignored without
 output option

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index bd059b9..b46bb57 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0


From 1f01ca8ec071aef1653852fdd2ce718b6e048a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:26 +0000
Subject: [PATCH 144/153] fix: fontcmd: draw did not read the file types that
 the other commands read

---
 cmd/fontcmd/draw.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 14e07f9..97ccf02 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -6,7 +6,6 @@ import (
 	"image/gif"
 	"image/jpeg"
 	"image/png"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -35,12 +34,7 @@ type Show struct {
 func (cmd *Show) Run() error {
 	terminal := cmd.Output == "" || cmd.Output == "-"
 
-	b, err := ioutil.ReadFile(cmd.Input)
-	if err != nil {
-		return err
-	}
-
-	sfnt, err := font.ParseSFNT(b, cmd.Index)
+	sfnt, _, _, err := readFont(cmd.Input, cmd.Index)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e759c3bb49bc17f6349cc57069d5500a8b2c7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 145/153] fix: fontcmd: draw left a damaged file when the image
 could not be encoded

---
 cmd/fontcmd/draw.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 97ccf02..c2ddfbe 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -1,12 +1,13 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
 	"image"
 	"image/gif"
 	"image/jpeg"
 	"image/png"
-	"os"
+	"io/ioutil"
 	"path/filepath"
 	"strconv"
 
@@ -142,11 +143,7 @@ func (cmd *Show) Run() error {
 		return fmt.Errorf("output extension must be PNG, JPG, GIF, or TIFF")
 	}
 
-	w, err := os.Create(cmd.Output)
-	if err != nil {
-		return err
-	}
-
+	w := &bytes.Buffer{}
 	switch ext {
 	case ".png":
 		err = png.Encode(w, img)
@@ -161,5 +158,5 @@ func (cmd *Show) Run() error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return ioutil.WriteFile(cmd.Output, w.Bytes(), 0666)
 }
-- 
2.43.0


From f78afb66080b0ad968a5e65d4a3e8526eaec6616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:49 +0000
Subject: [PATCH 146/153] fix: fontcmd: draw panicked or ran out of memory for
 extreme sizes

---
 cmd/fontcmd/draw.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index c2ddfbe..4da998d 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -8,6 +8,7 @@ import (
 	"image/jpeg"
 	"image/png"
 	"io/ioutil"
+	"math"
 	"path/filepath"
 	"strconv"
 
@@ -19,6 +20,18 @@ import (
 	"github.com/tdewolff/font"
 )
 
+// maxPixels is the maximum number of pixels of an image.
+const maxPixels = 1 << 28
+
+func checkSize(width, height float64) error {
+	if width < 0.0 || height < 0.0 {
+		return fmt.Errorf("image has negative dimensions")
+	} else if maxPixels < width || maxPixels < height || maxPixels < width*height {
+		return fmt.Errorf("image is too large")
+	}
+	return nil
+}
+
 type Show struct {
 	Index   int     `short:"i" desc:"Font index for font collections"`
 	GlyphID uint16  `short:"g" name:"glyph" desc:"Glyph ID"`
@@ -66,15 +79,24 @@ func (cmd *Show) Run() error {
 		fmt.Println("Name:", name)
 	}
 
+	if cmd.Scale < 1 {
+		return fmt.Errorf("scale must be positive")
+	} else if !(0.0 <= cmd.Ratio && cmd.Ratio <= maxPixels) {
+		return fmt.Errorf("ratio must be positive")
+	}
 	if cmd.Width != 0 {
 		if cmd.Width < 0 {
 			return fmt.Errorf("width must be positive")
 		}
-		cmd.PPEM = uint16(float64(cmd.Width) * float64(sfnt.Head.UnitsPerEm) / float64(sfnt.GlyphAdvance(cmd.GlyphID)))
+		ppem := float64(cmd.Width) * float64(sfnt.Head.UnitsPerEm) / float64(sfnt.GlyphAdvance(cmd.GlyphID))
+		if math.MaxUint16 < ppem {
+			return fmt.Errorf("width is too large for this glyph")
+		}
+		cmd.PPEM = uint16(ppem)
 	}
 
-	ascent := sfnt.Hhea.Ascender
-	descent := -sfnt.Hhea.Descender
+	ascent := int(sfnt.Hhea.Ascender)
+	descent := -int(sfnt.Hhea.Descender)
 	width := int(float64(cmd.PPEM)*float64(sfnt.GlyphAdvance(cmd.GlyphID))/float64(sfnt.Head.UnitsPerEm) + 0.5)
 	height := int(float64(cmd.PPEM)*float64(ascent+descent)/float64(sfnt.Head.UnitsPerEm) + 0.5)
 	//baseline := int(float64(ppem)*float64(ascent)/float64(sfnt.Head.UnitsPerEm) + 0.5)
@@ -88,6 +110,10 @@ func (cmd *Show) Run() error {
 		return fmt.Errorf("width cannot exceed 2048")
 	}
 
+	if err := checkSize(float64(width+2*xpadding), float64(height+2*ypadding)); err != nil {
+		return err
+	}
+
 	f := float64(cmd.PPEM) / float64(sfnt.Head.UnitsPerEm)
 
 	p := &canvas.Path{}
@@ -117,6 +143,9 @@ func (cmd *Show) Run() error {
 	if cmd.Ratio != 1.0 {
 		origImg := img
 		origRect := rect
+		if err := checkSize(float64(origRect.Max.X)*cmd.Ratio, float64(origRect.Max.Y)); err != nil {
+			return err
+		}
 		rect := image.Rect(0, 0, int(float64(origRect.Max.X)*cmd.Ratio+0.5), origRect.Max.Y)
 		img = image.NewRGBA(rect)
 		draw.ApproxBiLinear.Scale(img, rect, origImg, origRect, draw.Over, nil)
@@ -133,6 +162,9 @@ func (cmd *Show) Run() error {
 	if cmd.Scale != 1 {
 		origImg := img
 		origRect := rect
+		if err := checkSize(float64(origRect.Max.X)*float64(cmd.Scale), float64(origRect.Max.Y)*float64(cmd.Scale)); err != nil {
+			return err
+		}
 		rect := image.Rect(0, 0, (origRect.Max.X)*cmd.Scale, (origRect.Max.Y)*cmd.Scale)
 		img = image.NewRGBA(rect)
 		draw.NearestNeighbor.Scale(img, rect, origImg, origRect, draw.Over, nil)
-- 
2.43.0


From 2c13f940096dbc79d5dec284c6cf5932456f0320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:51 +0000
Subject: [PATCH 147/153] fix: fontcmd: the ratio of drawn images was lost when
 scaling

---
 cmd/fontcmd/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 4da998d..4781907 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -146,7 +146,7 @@ func (cmd *Show) Run() error {
 		if err := checkSize(float64(origRect.Max.X)*cmd.Ratio, float64(origRect.Max.Y)); err != nil {
 			return err
 		}
-		rect := image.Rect(0, 0, int(float64(origRect.Max.X)*cmd.Ratio+0.5), origRect.Max.Y)
+		rect = image.Rect(0, 0, int(float64(origRect.Max.X)*cmd.Ratio+0.5), origRect.Max.Y)
 		img = image.NewRGBA(rect)
 		draw.ApproxBiLinear.Scale(img, rect, origImg, origRect, draw.Over, nil)
 	}
@@ -165,7 +165,7 @@ func (cmd *Show) Run() error {
 		if err := checkSize(float64(origRect.Max.X)*float64(cmd.Scale), float64(origRect.Max.Y)*float64(cmd.Scale)); err != nil {
 			return err
 		}
-		rect := image.Rect(0, 0, (origRect.Max.X)*cmd.Scale, (origRect.Max.Y)*cmd.Scale)
+		rect = image.Rect(0, 0, (origRect.Max.X)*cmd.Scale, (origRect.Max.Y)*cmd.Scale)
 		img = image.NewRGBA(rect)
 		draw.NearestNeighbor.Scale(img, rect, origImg, origRect, draw.Over, nil)
 	}
-- 
2.43.0


From 28154a7959729ab6176c788821251ab34cdd996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 148/153] fix: fontcmd: info listed no tables of font
 collections and printed tables that do not exist for truncated files

---
 cmd/fontcmd/info.go | 50 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/cmd/fontcmd/info.go b/cmd/fontcmd/info.go
index fb55e61..abba365 100644
--- a/cmd/fontcmd/info.go
+++ b/cmd/fontcmd/info.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 
@@ -23,11 +24,6 @@ func (cmd *Info) Run() error {
 
 	r := parse.NewBinaryReaderBytes(b)
 	sfntVersion := r.ReadString(4)
-	if sfntVersion == "ttcf" {
-		_ = r.ReadUint32() // majorVersion and minorVersion
-	}
-	numTables := int(r.ReadUint16())
-	_ = r.ReadBytes(6)
 
 	version := "TrueType"
 	if sfntVersion == "OTTO" {
@@ -37,15 +33,45 @@ func (cmd *Info) Run() error {
 	}
 	fmt.Printf("File: %s\n\n", cmd.Input)
 	fmt.Printf("sfntVersion: 0x%08X (%s)\n", sfntVersion, version)
-	fmt.Printf("\nTable directory:\n")
 
+	offsets := []uint32{0}
+	if sfntVersion == "ttcf" {
+		_ = r.ReadUint32() // majorVersion and minorVersion
+		numFonts := int64(r.ReadUint32())
+		if r.Len() < 4*numFonts {
+			return fmt.Errorf("invalid font collection")
+		}
+		offsets = make([]uint32, numFonts)
+		for i := range offsets {
+			offsets[i] = r.ReadUint32()
+		}
+	}
+
+	total := int64(0) // of directories, which do not overlap
 	nLen := int(math.Log10(float64(len(b))) + 1)
-	for i := 0; i < numTables; i++ {
-		tag := r.ReadString(4)
-		checksum := r.ReadUint32()
-		offset := r.ReadUint32()
-		length := r.ReadUint32()
-		fmt.Printf("  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
+	for i, offset := range offsets {
+		if sfntVersion == "ttcf" {
+			fmt.Printf("\nFont %d:", i)
+		}
+		fmt.Printf("\nTable directory:\n")
+
+		if _, err := r.Seek(int64(offset), io.SeekStart); err != nil || r.Len() < 12 {
+			return fmt.Errorf("invalid table directory")
+		}
+		_ = r.ReadUint32() // sfntVersion
+		numTables := int(r.ReadUint16())
+		_ = r.ReadBytes(6)
+		total += 16 * int64(numTables)
+		if r.Len() < 16*int64(numTables) || int64(len(b)) < total {
+			return fmt.Errorf("invalid table directory")
+		}
+		for i := 0; i < numTables; i++ {
+			tag := r.ReadString(4)
+			checksum := r.ReadUint32()
+			offset := r.ReadUint32()
+			length := r.ReadUint32()
+			fmt.Printf("  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1598ff7cab869e79f7c6f294ecb7d25b79567854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:29 +0000
Subject: [PATCH 149/153] fix: CFF.SetGlyphNames(nil) left a font that could
 not be subset, and names of another number than glyphs made Subset and Write
 fail

---
 sfnt_cff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index eda1c94..70639e8 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -301,7 +301,15 @@ func (cff *cffTable) SetGlyphName(glyphID uint16, name string) {
 }
 
 func (cff *cffTable) SetGlyphNames(names []string) {
-	cff.charset = append([]string{}, names...)
+	if names == nil {
+		cff.charset = nil
+		return
+	}
+	charset := make([]string, cff.charStrings.Len())
+	for i := copy(charset, names); i < len(charset); i++ {
+		charset[i] = ".notdef"
+	}
+	cff.charset = charset
 }
 
 const (
-- 
2.43.0


From c32abd3c2affe473bfb4d1467df1d6cbdeb064c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 150/153] fix: fontcmd: CFF fonts could not be subset to more
 than 229 glyphs

---
 cmd/fontcmd/subset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index b46bb57..0588aa1 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -290,8 +290,8 @@ func (cmd *Subset) Run() error {
 	}
 	sort.Slice(glyphIDs, func(i, j int) bool { return glyphIDs[i] < glyphIDs[j] })
 
-	// set glyph names
-	if sfnt.IsCFF && cmd.GlyphName == "" {
+	// remove glyph names, unless there are too many glyphs to go without
+	if sfnt.IsCFF && cmd.GlyphName == "" && len(glyphIDs) <= 229 {
 		sfnt.CFF.SetGlyphNames(nil)
 	}
 
-- 
2.43.0


From f777ddb575e150af0746dfa3eee9fdfc4b59178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:59 +0000
Subject: [PATCH 151/153] fix: OS/2 Unicode ranges lack Phoenician (bit 58)

---
 sfnt_os2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index d03ee25..52ee700 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -466,6 +466,10 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x10840 {
 		return 107
+	} else if r < 0x10900 {
+		return -1
+	} else if r < 0x10920 {
+		return 58
 	} else if r < 0x10A00 {
 		return -1
 	} else if r < 0x10A60 {
-- 
2.43.0


From a96ac38e8c8a01fc216bd282524460942d8467b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:22 +0000
Subject: [PATCH 152/153] fix: no x-height and cap height of .notdef for OS/2
 tables that lack them

---
 sfnt_os2.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 52ee700..74c4d8d 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -138,24 +138,26 @@ func (sfnt *SFNT) parseOS2() error {
 }
 
 func (sfnt *SFNT) estimateOS2() {
+	// the heights are zero if the font has no glyph for the character
+	xGlyphID, hGlyphID := sfnt.GlyphIndex('x'), sfnt.GlyphIndex('H')
 	if sfnt.IsTrueType {
-		contour, err := sfnt.Glyf.Contour(sfnt.GlyphIndex('x'))
-		if err == nil {
+		contour, err := sfnt.Glyf.Contour(xGlyphID)
+		if err == nil && xGlyphID != 0 {
 			sfnt.OS2.SxHeight = contour.YMax
 		}
 
-		contour, err = sfnt.Glyf.Contour(sfnt.GlyphIndex('H'))
-		if err == nil {
+		contour, err = sfnt.Glyf.Contour(hGlyphID)
+		if err == nil && hGlyphID != 0 {
 			sfnt.OS2.SCapHeight = contour.YMax
 		}
 	} else if sfnt.IsCFF {
 		p := &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, sfnt.GlyphIndex('x'), 0, 0, 0, 1.0, NoHinting); err == nil {
+		if err := sfnt.CFF.ToPath(p, xGlyphID, 0, 0, 0, 1.0, NoHinting); err == nil && xGlyphID != 0 {
 			sfnt.OS2.SxHeight = int16(p.YMax)
 		}
 
 		p = &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, sfnt.GlyphIndex('H'), 0, 0, 0, 1.0, NoHinting); err == nil {
+		if err := sfnt.CFF.ToPath(p, hGlyphID, 0, 0, 0, 1.0, NoHinting); err == nil && hGlyphID != 0 {
 			sfnt.OS2.SCapHeight = int16(p.YMax)
 		}
 	}
-- 
2.43.0


From 7fd67fd142f00333dce967d7c614368ff795df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:36 +0000
Subject: [PATCH 153/153] fix: a table listed twice in SubsetOptions counts
 once in the length

---
 sfnt_subset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 8460dd0..a4b0be9 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -171,6 +171,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		table, ok := sfntOld.Tables[tag]
 		if !ok {
 			continue
+		} else if _, ok := sfnt.Tables[tag]; ok {
+			continue // listed more than once
 		}
 		switch tag {
 		case "cmap":
-- 
2.43.0

