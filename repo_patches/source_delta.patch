From c5cdf6f9e80dceb6dd905a191ed6de03debedb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 01/12] fix: read the difficulty name from the Version key

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..50509b9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From 855f36d01533df87b23c2a0b1ea9065d0cfd9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 02/12] fix: ParseMods panicked on strings of odd length

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From f966b40e0d0a73a2c08e638cbbbd8bae9751fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 03/12] fix: binomial coefficients lost fractions

---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From 318df9bedee0312e47c63cd8abc223415cb32286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 04/12] fix: difficulty settings given as NaN were not clamped

---
 beatmap/parser.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 50509b9..0b793c7 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -68,26 +68,32 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 	}
 }
 
+// parseSetting reads a number and keeps it between min and max, text that is no number counts as 0
+func parseSetting(text string, min, max float64) float64 {
+	parsed, _ := strconv.ParseFloat(text, 64)
+	if math.IsNaN(parsed) {
+		parsed = 0
+	}
+
+	return mutils.ClampF64(parsed, min, max)
+}
+
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
 		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetAR(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetAR(parseSetting(line[1], 0, 10))
 		beatMap.arSpecified = true
 	case "CircleSize":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetCS(parseSetting(line[1], 0, 10))
 	case "SliderTickRate":
 		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
 	case "HPDrainRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetHP(parseSetting(line[1], 0, 10))
 	case "OverallDifficulty":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetOD(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetOD(parseSetting(line[1], 0, 10))
 
 		if !beatMap.arSpecified {
 			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
-- 
2.43.0


From 0dc7ec0d0b9e58fcdf28c200779127debe1080da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 05/12] fix: sliders generated ticks forever without a positive
 tick distance

---
 beatmap/objects/slider.go | 4 ++--
 beatmap/parser.go         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..214c163 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -122,8 +122,8 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 		spanStartTime := slider.StartTime + float64(span)*slider.spanDuration
 		reversed := span%2 == 1
 
-		// skip ticks if timingPoint has NaN beatLength
-		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
+		// skip ticks if timingPoint has NaN beatLength or there is no distance between ticks
+		for d := tickDistance; d <= cLength && tickDistance > 0 && !nanTimingPoint; d += tickDistance {
 			if d >= cLength-minDistanceFromEnd {
 				break
 			}
diff --git a/beatmap/parser.go b/beatmap/parser.go
index 0b793c7..a7b9684 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -81,7 +81,7 @@ func parseSetting(text string, min, max float64) float64 {
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.SliderMultiplier = parseSetting(line[1], 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		beatMap.Difficulty.SetAR(parseSetting(line[1], 0, 10))
@@ -89,7 +89,7 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 	case "CircleSize":
 		beatMap.Difficulty.SetCS(parseSetting(line[1], 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = parseSetting(line[1], 0.5, 8)
 	case "HPDrainRate":
 		beatMap.Difficulty.SetHP(parseSetting(line[1], 0, 10))
 	case "OverallDifficulty":
-- 
2.43.0


From fcf33317075b5b05dac8d24f2f5d2ff518993eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 06/12] fix: hit object and event lines with missing or absurd
 fields crashed the parser

---
 beatmap/objects/util.go | 38 +++++++++++++++++++++++++++++++++++++-
 beatmap/parser.go       | 10 +++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..8371795 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -1,6 +1,42 @@
 package objects
 
-import "strconv"
+import (
+	"math"
+	"strconv"
+)
+
+const (
+	maxCoordinate = 131072        // limit of positions and lengths in osu!
+	maxTime       = math.MaxInt32 // limit of times in osu!
+)
+
+// IsValidData reports whether a hit object line has all the fields its type needs and osu! accepts its positions, times and length
+func IsValidData(data []string) bool {
+	if len(data) < 5 || !inRange(data[0], maxCoordinate) || !inRange(data[1], maxCoordinate) || !inRange(data[2], maxTime) {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	if (objType & CIRCLE) > 0 {
+		return true
+	} else if (objType & SPINNER) > 0 {
+		return len(data) > 5 && inRange(data[5], maxTime)
+	} else if (objType & SLIDER) > 0 {
+		return len(data) > 7 && inRange(data[7], maxCoordinate)
+	} else if (objType & LONGNOTE) > 0 {
+		return len(data) > 5
+	}
+
+	return true
+}
+
+// inRange reports whether the number in text lies between -limit and limit, text that is no number counts as 0
+func inRange(text string, limit float64) bool {
+	value, _ := strconv.ParseFloat(text, 64)
+	return math.Abs(value) <= limit
+}
 
 func CreateObject(data []string) IHitObject {
 	objTypeI, _ := strconv.Atoi(data[3])
diff --git a/beatmap/parser.go b/beatmap/parser.go
index a7b9684..d7564ae 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -104,8 +104,16 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 func parseEvents(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "Background", "0":
+		if len(line) < 3 {
+			return
+		}
+
 		beatMap.Bg = strings.Replace(line[2], "\"", "", -1)
 	case "Break", "2":
+		if len(line) < 3 {
+			return
+		}
+
 		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
 	}
 }
@@ -195,7 +203,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.IsValidData(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From 08f94b42f275783a4e7d68bc97eb7002fc631dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 07/12] fix: sliders with broken curve points, repeats or edge
 sounds crashed the parser

---
 beatmap/objects/slider.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 214c163..bde1604 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 )
 
+const maxRepeats = 9000 // limit of slider repeats in osu!
+
 type TickPoint struct {
 	Time      float64
 	IsReverse bool
@@ -45,12 +47,17 @@ func NewSlider(data []string) *Slider {
 
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
+	slider.RepeatCount = mutils.ClampI64(slider.RepeatCount, 1, maxRepeats)
 
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
 
 	for i := 1; i < len(list); i++ {
 		list2 := strings.Split(list[i], ":")
+		if len(list2) < 2 || !inRange(list2[0], maxCoordinate) || !inRange(list2[1], maxCoordinate) {
+			continue
+		}
+
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
@@ -72,6 +79,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
-- 
2.43.0


From c8751dbfe6cbf7c2a69f65a8608d2b5be7fa4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 08/12] fix: circular arcs got no segments when short and too
 many to allocate when huge

---
 math/curves/approximation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..0bafafd 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -1,9 +1,13 @@
 package curves
 
 import (
+	"github.com/Wieku/gosu-pp/math/math32"
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+// most segments a circular arc is split into
+const maxArcSegments = 100000
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -11,7 +15,10 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-	segments := int(arc.r * arc.totalAngle * detail)
+	segments := 1
+	if parts := arc.r * arc.totalAngle * detail; parts > 1 {
+		segments = int(math32.Min(parts, maxArcSegments))
+	}
 
 	lines := make([]Linear, segments)
 
-- 
2.43.0


From 00b87b6db1eb2995eefc167d03ed10c408e57ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 09/12] fix: rating an empty list of objects panicked

---
 performance/osu/difficulty.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..d566908 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,7 +168,9 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
-	addObjectToAttribs(objects[0], &attr)
+	if len(objects) > 0 {
+		addObjectToAttribs(objects[0], &attr)
+	}
 
 	for i, o := range diffObjects {
 		addObjectToAttribs(objects[i+1], &attr)
@@ -211,9 +213,12 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
-	stars := make([]Attributes, 1, len(objects))
+	stars := make([]Attributes, 0, len(objects))
 
-	addObjectToAttribs(objects[0], &stars[0])
+	if len(objects) > 0 {
+		stars = append(stars, Attributes{})
+		addObjectToAttribs(objects[0], &stars[0])
+	}
 
 	for i, o := range diffObjects {
 		attr := stars[i]
-- 
2.43.0


From a3808998f607a21bf4daf36fb3477648bc3f2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 10/12] fix: AudioFilename line sets the file name instead of
 appending to it

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index d7564ae..90c4e50 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -25,7 +25,7 @@ func parseGeneral(line []string, beatMap *BeatMap) bool {
 			beatMap.StackLeniency = 0.0
 		}
 	case "AudioFilename":
-		beatMap.Audio += line[1]
+		beatMap.Audio = line[1]
 	case "PreviewTime":
 		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)
 		//case "SampleSet":
-- 
2.43.0


From f0258254a2d2ffcc6e465634139deac9339971be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 11/12] fix: finalising timing points again no longer
 duplicates the uninherited points

---
 beatmap/timing/timing.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..ecb25c0 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -93,6 +93,8 @@ func (tim *Timings) FinalizePoints() {
 		return tim.points[i].Time < tim.points[j].Time
 	})
 
+	tim.originalPoints = nil
+
 	for i, point := range tim.points {
 		if point.Inherited && i > 0 {
 			lastPoint := tim.points[i-1]
-- 
2.43.0


From b4d7ff77616e2388120ac043f54a51cf43793ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 12/12] fix: timing a slider again no longer keeps its former
 scoring points

---
 beatmap/objects/slider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index bde1604..758e982 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -111,6 +111,7 @@ func (slider *Slider) PositionAt(time float64) vector.Vector2f {
 func (slider *Slider) SetTiming(timings *timing.Timings) {
 	slider.Timings = timings
 	slider.TPoint = timings.GetPointAt(slider.StartTime)
+	slider.ScorePoints = nil
 
 	nanTimingPoint := math.IsNaN(slider.TPoint.GetRawBeatLength())
 
-- 
2.43.0

