#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
D="beatmap/difficulty/difficulty.go"; M="beatmap/difficulty/mods.go"; T="beatmap/timing/timing.go"
S="beatmap/objects/slider.go"; H="beatmap/objects/hitobject.go"; B="beatmap/parser.go"; ST="beatmap/stackleniency.go"
MC="math/curves/multicurve.go"; SK="performance/osu/skills/skill.go"; AIM="performance/osu/skills/aim.go"; SP="performance/osu/skills/speed.go"; FL="performance/osu/skills/flashlight.go"
DIF="performance/osu/difficulty.go"; PP="performance/osu/pp.go"; OBJ="performance/osu/preprocessing/object.go"; OBJS="performance/osu/preprocessing/objects.go"; LZ="performance/osu/preprocessing/lazyslider.go"

p("C01","Derived difficulty values depend only on the current settings",
 "Whatever sequence of changes to HP, CS, OD, AR, mods and custom speed a difficulty went through, all its derived values (HP, circle radius, preempt, hit windows, spinner ratio, speed, real AR and real OD) equal those of a freshly created difficulty brought directly to the same settings. The base HP, CS, OD and AR always read back exactly the values last set, whatever mods are active.",
 ["inputs","histories"],"every sequence of setter calls and every finite value and mod combination",
 "The tests set mods at most once on one parsed map; they never change a setting afterwards or read base values back.",
 [D],[("every setter recomputes all derived values",D+": Set*, calculate"),("base values kept apart from mod-scaled ones",D+": calculate")],
 ["getters and exported fields of a difficulty"],[("hp,cs,od,ar","base settings",D),("Preempt..ODReal","derived values",D)])
p("C02","Mods scale the settings by the published osu! rules",
 "Hard Rock multiplies CS by 1.3 and AR, OD and HP by 1.4, each capped at 10; Easy halves all four afterwards; other mods leave them alone. From the scaled values, preempt time, circle radius, the three hit windows and the spinner ratio are the piecewise linear functions through the published anchor values at settings 0, 5 and 10 (preempt 1800/1200/450, radius 54.4/32/9.6, great 80/50/20, ok 140/100/60, meh 200/150/100, spinner 3/5/7.5). The clock rate is the custom speed times 1.5 under Double Time, else times 0.75 under Half Time, and it is this rate, and no other mod, that speed, modified times, real AR and real OD account for.",
 ["inputs","configurations"],"every finite setting, every 64-bit mod combination, every positive custom speed",
 "The tests use three mod combinations on two maps with mid-range settings, so caps, values above 5 or below 5 for each setting, and mod interactions are not reached.",
 [D],[("scaling and caps",D+": calculate"),("piecewise interpolation",D+": DifficultyRate"),("clock rate",D+": GetModifiedTime")],
 ["exported fields of a difficulty after its mods were set","GetModifiedTime"])
p("C03","Setting-to-time conversion is monotone and exactly inverted",
 "Converting a setting to a time (or any other rate with strictly decreasing anchors) and back gives the setting again, for every setting and not only those in 0..10, and a larger setting always gives a strictly smaller rate. In particular, at clock rate 1 real AR and real OD equal the mod-scaled AR and OD, and speeding the clock up never lowers them.",
 ["inputs"],"every finite setting and every strictly decreasing triple of anchors; every clock rate",
 "Inverse and monotonicity relate pairs of inputs over a continuum; the tests check final pp of a few.",
 [D],[("piecewise interpolation",D+": DifficultyRate"),("its inverse",D+": DiffFromRate")],["results of the two conversion functions; ARReal, ODReal"])
p("C04","Mod strings are parsed totally and round-trip",
 "Formatting any combination of the 32 named mods as a short string and parsing it back gives the same combination plus only the mods implied by it (Nightcore implies Double Time, Perfect implies Sudden Death, Daycore implies Half Time), and the short and the full format name the same mods in bit order. Parsing never fails on any string: unknown or incomplete abbreviations contribute nothing, and the result contains the bit of an abbreviation exactly when that abbreviation occurs at an aligned position or is implied.",
 ["inputs"],"every combination of the 32 mods, every string",
 "The tests never parse or format mods.",[M],
 [("bit-indexed name tables",M+": modsString, modsStringFull"),("implied mods",M+": ParseMods, String, StringFull")],["ParseMods, String, StringFull"])
p("C05","Mod compatibility and score multiplier follow the mod rules",
 "A combination is reported incompatible exactly when it contains Target or one of the conflicting pairs HR+EZ, (NC or DT)+(HT or DC), (PF or SD)+NF, RX+AP, (RX or AP)+(SD or PF or Auto or NF), AP+SO; so removing mods from a compatible combination keeps it compatible. The score multiplier is 0 when Relax or Autopilot is active and otherwise the product of EZ 0.5, HT 0.3, HD 1.06, FL 1.12, SO 0.9, HR 1.06 (1.10 with ScoreV2), DT 1.12 (1.20 with ScoreV2) and NF 0.5 (1 with ScoreV2) over the active mods.",
 ["inputs","configurations"],"all 2^63 non-negative mod combinations","The tests never query either.",[M],
 [("conflict table",M+": Compatible"),("multiplier product",M+": GetScoreMultiplier")],["Compatible, GetScoreMultiplier"])
p("C06","Timing lookup returns the point in force at a time",
 "For timing points in time order, looking up a time returns the last point whose time is not later than it, and the first point when all are later; a point takes effect at exactly its own time. The same holds for the lookup restricted to uninherited points, and lookups change nothing.",
 ["inputs","histories"],"every non-empty time-ordered list of points (duplicates included) and every time",
 "Boundary times, duplicates and times before the first point are not sampled deliberately by the two maps.",[T],
 [("binary search for the first later point",T+": GetPointAt, GetOriginalPointAt")],["returned control point"])
p("C07","Finalised timing points are time-ordered with inherited base tempo",
 "Finalising timing points orders them by time, keeping the order of points at equal times, and neither adds, drops nor alters any of their other attributes. Every inherited point other than the first takes its base beat length from the nearest earlier uninherited point (or the first point), while uninherited points keep their own; the uninherited list consists of exactly those points that kept their own, in time order.",
 ["inputs","histories"],"every list of timing points in any order","The maps in the tests are already in order and have few points.",[T],
 [("stable sort, then one forward pass",T+": FinalizePoints")],["GetPointAt, GetOriginalPointAt, base beat length of each point"])
p("C08","Slider speed follows tempo and a velocity multiplier kept in 0.1..10",
 "A control point with a negative beat length slows or speeds sliders by minus that value over 100, clamped to 0.1..10; any other beat length (NaN included) leaves the ratio at 1, and the effective beat length is the base beat length times that ratio. Slider velocity, in pixels per second, is 100 times the slider multiplier times 1000 over the effective beat length; the distance between ticks is 100 times the multiplier over the tick rate and over that ratio; one traversal of a slider takes its path length over that velocity and the slider ends after all its repeats.",
 ["inputs"],"every control point, slider multiplier, tick rate, path and repeat count (positive, finite)",
 "Clamping and NaN beat lengths do not occur in the test maps.",[T,S],
 [("ratio clamp",T+": GetRatio"),("velocity and tick distance",T+": GetVelocity, GetTickDistance"),("end time",S+": SetTiming")],["slider end time, GetVelocity, GetTickDistance, GetRatio"])
p("C09","Slider scoring points: complete, ordered and inside the slider",
 "A timed slider with R spans has, in non-decreasing time order, for every span the same ticks (spaced by the tick distance from the path start, none closer to the path end than 10 ms of travel), one reverse point at the end of each span but the last, and exactly one final point at the later of its midpoint and 36 ms before its end. Hence it has R times (ticks per span + 1) points of which R-1 are reverse points, all between its start and its end.",
 ["inputs"],"every slider with at least one span, positive finite velocity, tick distance and path length",
 "Counts feed max combo, but only for the sliders in two maps, most without repeats.",[S],
 [("tick and reverse generation",S+": SetTiming")],["ScorePoints of a slider; max combo"])
p("C10","Slider ball position clamps to the slider and ping-pongs along its path",
 "The position of a slider at a time is the path position at a progress that runs linearly from the path start to its end in one span and back in the next; times before the start or after the end give the start or the end position. So the position at the start time is the path start and the reported end position is the path start for an even and the path end for an odd number of spans; a slider of no duration stays at its start.",
 ["inputs"],"every time and every slider with positive span duration","Positions are only seen through star rating of two maps.",[S,H],
 [("clamp, modulo and reflection",S+": PositionAt")],["GetPositionAt, GetEndPosition"])
p("C11","Slider paths have the requested length and are parametrised by arc length",
 "A path cut or extended to a requested length has that length (within the minimum part width of 0.0001) whenever its unadjusted length is positive and its last remaining segment is not degenerate. The position at parameter t, clamped to 0..1, is the point reached after travelling t times the length along the segments: the path start at 0, the path end at 1, always on the segment containing that distance; an empty path is its first point.",
 ["inputs"],"every list of segments, every requested length, every parameter","Only the curves of two maps are exercised, through a star rating tolerance.",[MC,"math/curves/linear.go"],
 [("cutting back from the end",MC+": NewMultiCurveT"),("prefix sums and binary search",MC+": PointAt")],["GetLength, PointAt"])
p("C12","Flattened curves keep their end points and stay connected",
 "Flattening any list of control points gives segments that join end to end, beginning at the first control point and ending at the last (for Catmull-Rom and circular arcs up to rounding), and a Bezier subdivision gives two halves that share the split point and keep the outer end points. Every curve primitive evaluates to its end points at parameters 0 and 1, and the binomial coefficients behind Bezier evaluation are exact.",
 ["inputs"],"every control point list of every curve type; every n, k whose binomial fits in 64 bits",
 "Flattening is only seen through the summed star rating; Bezier evaluation with many points is never called.",["math/curves/approximation.go","math/curves/bezierapproximator.go","math/curves/bezier.go","math/curves/linear.go","math/curves/catmull.go","math/curves/cirarc.go",MC],
 [("de Casteljau subdivision","math/curves/bezierapproximator.go: Subdivide, CreateBezier"),("binomials","math/curves/bezier.go: BinomialCoefficient"),("segment chaining",MC+": process*")],["GetLines, PointAt of each curve"])
p("C13","Parsing and rating never crash on malformed beatmaps",
 "No input text makes the parser crash: malformed lines (missing fields, broken curve points, wrong counts, negative or zero repeats) are skipped or repaired, and the result is a beatmap or an error. A parsed beatmap, even without hit objects, can be rated under any mods without a crash.",
 ["inputs"],"every byte input; every mod combination","The tests parse three well-formed files.",[B,"beatmap/beatmap.go","beatmap/pause.go","beatmap/objects/baseobject.go",S,"beatmap/objects/spinner.go",DIF],
 [("field count guards",B+": ParseFromReader and section parsers"),("empty map guard",DIF)],["return of ParseFromReader / CalculateSingle / CalculateStep"])
p("C14","Difficulty settings read from a file are in range and AR defaults to OD",
 "Whatever the difficulty section says, HP, CS, OD and AR of the parsed beatmap are in 0..10: a value outside is clamped to the nearer bound and text that is no number counts as 0. AR equals OD as long as no approach rate line occurred and the last approach rate otherwise, in whatever order the lines come; each line changes only its own setting (and AR as just said).",
 ["inputs","histories"],"every sequence of key/value lines of the difficulty section","The test maps have in-range values and an AR line after OD.",[B,"math/mutils/utils.go",D],
 [("clamping",B+": parseDifficulty"),("AR fallback",B+": parseDifficulty, arSpecified")],["GetHP, GetCS, GetOD, GetAR after parsing"],[("arSpecified","an approach rate line was seen","beatmap/beatmap.go")])
p("C15","Hit objects are numbered and grouped into combos in time order",
 "Parsed hit objects are in non-decreasing start time order and carry the identifiers 0, 1, 2, ... in that order. Combo numbers count up by one from one object to the next and restart at 1 exactly at non-spinner objects that start a new combo; the first non-spinner object after a spinner always starts one, and the combo index grows by one at each restart (by one plus the colour offset for the skip-aware index).",
 ["inputs"],"every list of hit objects with any flags and times","The tests never look at combos, and both maps are time-ordered.",[B,"beatmap/objects/baseobject.go"],
 [("stable sort and a forward pass",B+": ParseFromReader")],["GetID, ComboNumber, GetComboSet, GetComboSetHax of parsed objects"])
p("C16","Stacking moves objects per difficulty mode by their own stack height only",
 "Stacking keeps separate heights for no mod, Easy and Hard Rock: computing one never changes the others, and the outcome does not depend on heights from an earlier computation. Under each mode a non-spinner object is displaced diagonally by minus its height in that mode times a tenth of the circle radius of that mode, and spinners have height 0 and are never displaced; nothing else about the objects changes.",
 ["inputs","histories","configurations"],"every list of hit objects, every stack leniency, both stacking versions","Stack offsets are only visible through star rating; mode mix-ups change nothing the tests see without Easy.",[ST,H],
 [("mode-indexed fields",H+": SetStackIndex, SetStackOffset, modifyPosition"),("three passes",ST+": calculateStackLeniency, processStacking")],["GetStackIndex, GetStackedStartPositionMod"])
p("C17","Difficulty objects describe each consecutive pair of hit objects",
 "Preprocessing n hit objects gives one difficulty object for each of the objects 2..n, in order, whose start, end and delta times are the object's times and its distance to the previous start divided by the clock rate, and whose strain time is the delta but at least 25 ms. Jump, movement and travel distances are never negative and are zero next to a spinner; the angle is between 0 and pi and is absent exactly for the first pair and next to spinners; movement and travel times, where set, are at least 25 ms.",
 ["inputs"],"every list of hit objects and every difficulty with positive clock rate and radius","Only visible through star rating of two maps.",[OBJ,OBJS],
 [("pairing loop",OBJS+": CreateDifficultyObjects"),("time scaling and floors",OBJ+": NewDifficultyObject, setDistances")],["fields of the returned difficulty objects"])
p("C18","Strain sections of all skills line up",
 "Strain sections are 400 ms long and end at multiples of 400 ms of play time, the first being the one containing the first processed object; empty sections in between are kept. The number of sections depends only on the start times processed, so aim, speed and flashlight peaks of one calculation always have equal length and combine index by index; peaks are never negative.",
 ["inputs","histories"],"every time-ordered sequence of difficulty objects","Peaks are never computed by the tests.",[SK,DIF],
 [("section loop",SK+": processInternal"),("combination",DIF+": getPeaks")],["CalculateStrainPeaks, CalculateSingleWithPeaks"])
p("C19","Reading a skill's difficulty value is pure and weighs its peaks as specified",
 "The difficulty value is the skill's multiplier times the sum of its section peaks, taken from hardest to easiest after the hardest few were reduced towards the baseline on a logarithmic scale, each weighted by the decay weight to the power of its rank; it is never negative. Reading it, or reading the peaks, any number of times changes neither the skill's state nor any later result, and the returned peaks are a private copy that ends with the current section.",
 ["inputs","histories"],"every list of non-negative peaks and every skill parameters; any interleaving of reads and processing",
 "The tests read each value once, at the end.",[SK],[("copy before sorting",SK+": GetCurrentStrainPeaks, DifficultyValue")],["DifficultyValue, GetCurrentStrainPeaks"])
p("C20","Stepwise ratings equal the rating of each prefix",
 "The stepwise calculation returns one entry per hit object, and for every prefix of at least two objects its entry equals, in every attribute, the single calculation of that prefix under the same difficulty; the last entry equals the rating of the whole map. The variants that also return strain peaks give the same attributes, and the same peaks as the peak-only calculation.",
 ["inputs"],"every list of hit objects, every difficulty, every prefix","The tests only call the single calculation.",[DIF,SK],
 [("same processing order and pure value reads",DIF+": calculateSingle, calculateStep")],["CalculateSingle, CalculateStep and their peak variants"])
p("C21","Object counts and max combo cover exactly the rated objects",
 "In every calculation the object count is the number of objects rated, the circle, slider and spinner counts are the numbers of objects of each kind among them, and max combo is the object count plus the number of scoring points of all the sliders. The first object counts even though it has no strain.",
 ["inputs"],"every list of hit objects of the three kinds","The tests only use the counts of two maps as pp inputs.",[DIF],
 [("one addition per object",DIF+": addObjectToAttribs")],["Attributes returned by every calculation"])
p("C22","Rating is read-only on the beatmap and the difficulty",
 "No difficulty or performance calculation changes any hit object, slider scoring point, difficulty setting or the slice passed in, so calculations under different mods on one beatmap are independent of each other and of their order.",
 ["inputs","histories","schedules"],"every beatmap, every difficulty and every order (or overlap) of calculations","Each test performs one calculation on a fresh parse.",[DIF,OBJ,OBJS,LZ,SK,AIM,SP,FL,PP],
 [("decorated copies instead of in-place updates",LZ+": NewLazySlider")],["hit objects and difficulty before and after a calculation"])
p("C23","Score inputs are normalised and accuracy and misses stay in bounds",
 "A negative combo stands for the map's full combo and a negative great count for all objects not otherwise judged. Accuracy is the weighted hit fraction (50/100/300) clamped to 0..1, and 0 without hits; the effective miss count is never below the real misses nor, when these do not exceed them, above the total hits, rises only when a map with sliders was played with less than its full combo threshold, and under Relax also counts oks and mehs. Reusing one calculator object gives the same result as a fresh one.",
 ["inputs","histories"],"every score with non-negative counts and every attributes","The tests only compute full-combo perfect scores.",[PP],
 [("defaults, accuracy",PP+": PPv2x"),("combo-based misses",PP+": calculateEffectiveMissCount")],["PPv2x results"])
p("C24","Performance values are finite, non-negative and combined as specified",
 "For every feasible score (no count negative, no more spinners than judged objects) on a rated map, under a difficulty whose real AR is at most 13 and real OD at most 13.5, all performance components and the total are finite and non-negative. The accuracy component is 0 under Relax, the flashlight component is 0 without Flashlight, and the total is the 1.1-norm of the four components times 1.12 and the penalties of No Fail (2% per effective miss, at most 10%), Spun Out (by the spinner share to the 0.85) and Relax (0.6).",
 ["inputs","configurations"],"every feasible score, every attributes with non-negative ratings and slider factor, every mod combination","Only perfect scores on one map with three mods are tested.",[PP],
 [("component formulas",PP+": compute*Value"),("combination",PP+": PPv2x")],["PPv2Results"])
p("C25","More misses or less combo never earn more performance",
 "With everything else equal, a lower max combo never increases any performance component or the total, and turning greats into misses never increases any of them either; a higher aim, speed or flashlight rating never decreases its component. This holds for every feasible score (as in C24) with max combo at most the full combo, on maps whose slider factor is at most 1.",
 ["inputs"],"every pair of feasible scores on one map ordered this way, every mod combination","Monotonicity relates two inputs; the tests look at perfect scores only.",[PP],
 [("penalty factors non-increasing",PP+": compute*Value, calculateEffectiveMissCount")],["PPv2Results of two scores"])
p("C26","Star rating combines the skills monotonically and by the active mods",
 "Aim, speed and flashlight ratings are 0.0675 times the square root of their skill values (speed 0 under Relax), and the slider factor is the ratio of the aim rating without to the one with sliders, or 1 when there is no aim. The total is never negative, never decreases when a skill value increases, and ignores flashlight unless Flashlight is active.",
 ["inputs","configurations"],"all non-negative skill values, every mod combination","The tests see two maps without Relax or Flashlight.",[DIF],
 [("combination formula",DIF+": getStarsFromRawValues")],["Attributes"])
p("C27","A beatmap parses alike whatever its Unicode encoding",
 "The same beatmap text encoded as UTF-8 with or without byte order mark, or as UTF-16 with one, parses to the same beatmap.",
 ["inputs"],"every text","One file in two encodings is compared, in four fields.",["files/utf.go",B],[("BOM-sensitive decoder","files/utf.go")],["ParseFromReader"])
p("C28","Each metadata and general key sets exactly its own field",
 "A key/value line of the general or metadata section sets the beatmap field of that name to its trimmed value and changes no other field: Title, TitleUnicode, Artist, ArtistUnicode, Creator, Version (the difficulty name), Source, Tags, BeatmapID and BeatmapSetID, and Mode, StackLeniency (0 if not a number), AudioFilename and PreviewTime. Unknown keys change nothing.",
 ["inputs"],"every key and value","Four fields of one file are compared.",[B],[("key dispatch",B+": parseGeneral, parseMetadata")],["fields of the parsed beatmap"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
