//go:build go1.21

package osu

// Contracts of the star rating calculations (C18, C20, C21, C22).

import (
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/verifvf"
)

// ---------- C21

func s_points(o objects.IHitObject) int {
	if s, ok := o.(*objects.Slider); ok {
		return len(s.ScorePoints)
	}
	return 0
}

func s_isSlider(o objects.IHitObject) bool {
	_, ok := o.(*objects.Slider)
	return ok
}

func s_isCircle(o objects.IHitObject) bool {
	_, ok := o.(*objects.Circle)
	return ok
}

func s_isSpinner(o objects.IHitObject) bool {
	_, ok := o.(*objects.Spinner)
	return ok
}

func s_b(b bool) int {
	if b {
		return 1
	}
	return 0
}

func gen_object(r *verifvf.Rand) objects.IHitObject {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(4)))
		if err == nil && len(bm.HitObjects) > 0 {
			return bm.HitObjects[r.Intn(len(bm.HitObjects))]
		}
	}
}

func gen_addObject(r *verifvf.Rand) (objects.IHitObject, *Attributes) {
	a := gen_attr(r)
	return gen_object(r), &a
}

//verif:contract addObjectToAttribs
//verif:prop C21
//verif:opaque
func ctr_addObject(o objects.IHitObject, a *Attributes) {
	verifvf.Requires(o != nil && a != nil)
	b := *a
	verifvf.Modifies(&a.ObjectCount)
	verifvf.Modifies(&a.Circles)
	verifvf.Modifies(&a.Sliders)
	verifvf.Modifies(&a.Spinners)
	verifvf.Modifies(&a.MaxCombo)
	addObjectToAttribs(o, a)
	verifvf.Ensures("the object is counted", a.ObjectCount == b.ObjectCount+1)
	verifvf.Ensures("a circle is counted as a circle", a.Circles == b.Circles+s_b(s_isCircle(o)))
	verifvf.Ensures("a slider is counted as a slider", a.Sliders == b.Sliders+s_b(s_isSlider(o)))
	verifvf.Ensures("a spinner is counted as a spinner", a.Spinners == b.Spinners+s_b(s_isSpinner(o)))
	verifvf.Ensures("the object and its scoring points give combo", a.MaxCombo == b.MaxCombo+1+s_points(o))
}

// ---------- bounded part: the calculations on whole maps

func gen_map(r *verifvf.Rand) (string, difficulty.Modifier) {
	return r.BeatmapText(14), difficulty.Modifier(r.Mods())
}

func s_parse(text string, m difficulty.Modifier) (os []objects.IHitObject, d *difficulty.Difficulty) {
	bm, err := beatmap.ParseFromByte([]byte(text))
	verifvf.Requires(err == nil)
	bm.Difficulty.SetMods(m)
	return bm.HitObjects, bm.Difficulty
}

func s_counts(os []objects.IHitObject) (a Attributes) {
	for _, o := range os {
		a.ObjectCount++
		a.Circles += s_b(s_isCircle(o))
		a.Sliders += s_b(s_isSlider(o))
		a.Spinners += s_b(s_isSpinner(o))
		a.MaxCombo += 1 + s_points(o)
	}
	return
}

func s_sameCounts(a, b Attributes) bool {
	return a.ObjectCount == b.ObjectCount && a.Circles == b.Circles && a.Sliders == b.Sliders && a.Spinners == b.Spinners && a.MaxCombo == b.MaxCombo
}

func gen_Counts(r *verifvf.Rand) (string, difficulty.Modifier) { return gen_map(r) }

//verif:lemma
//verif:prop C21
//verif:bounded whole maps from their text; the counts themselves are proved in frames.go
func ctr_Counts(text string, m difficulty.Modifier) {
	os, d := s_parse(text, m)
	want := s_counts(os)
	verifvf.Ensures("a single calculation counts all objects", s_sameCounts(CalculateSingle(os, d), want))
	p, _ := CalculateSingleWithPeaks(os, d)
	verifvf.Ensures("a calculation with peaks counts all objects", s_sameCounts(p, want))
	st := CalculateStep(os, d)
	sp, _ := CalculateStepWithPeaks(os, d)
	verifvf.Ensures("one step for every object", len(st) == len(os) && len(sp) == len(os))
	for i := range os {
		verifvf.Ensures("a step counts the objects so far", s_sameCounts(st[i], s_counts(os[:i+1])))
		verifvf.Ensures("a step with peaks counts the objects so far", s_sameCounts(sp[i], s_counts(os[:i+1])))
	}
}

func s_same(a, b Attributes) bool {
	return s_sameCounts(a, b) && verifvf.Same(a.Total, b.Total) && verifvf.Same(a.Aim, b.Aim) && verifvf.Same(a.SliderFactor, b.SliderFactor) &&
		verifvf.Same(a.Speed, b.Speed) && verifvf.Same(a.Flashlight, b.Flashlight)
}

func s_samePeaks(a, b StrainPeaks) bool { return verifvf.Deep(a) == verifvf.Deep(b) }

func gen_Steps(r *verifvf.Rand) (string, difficulty.Modifier) { return gen_map(r) }

//verif:lemma
//verif:prop C20
//verif:bounded the equality of two runs over whole maps relates two executions of the loops, which the contracts of one execution cannot express
func ctr_Steps(text string, m difficulty.Modifier) {
	os, d := s_parse(text, m)
	st := CalculateStep(os, d)
	sp, pk := CalculateStepWithPeaks(os, d)
	verifvf.Ensures("one entry for every object", len(st) == len(os) && len(sp) == len(os))
	for i := 1; i < len(os); i++ {
		verifvf.Ensures("an entry is the rating of its prefix", s_same(st[i], CalculateSingle(os[:i+1], d)))
	}
	for i := range os {
		verifvf.Ensures("peaks do not change the entries", s_same(st[i], sp[i]))
	}
	single := CalculateSingle(os, d)
	if len(os) > 1 {
		verifvf.Ensures("the last entry is the rating of the map", s_same(st[len(os)-1], single))
	}
	p, pk1 := CalculateSingleWithPeaks(os, d)
	verifvf.Ensures("peaks do not change the rating", s_same(p, single))
	pk2 := CalculateStrainPeaks(os, d)
	verifvf.Ensures("single and peak-only peaks agree", s_samePeaks(pk1, pk2))
	verifvf.Ensures("step and peak-only peaks agree", s_samePeaks(pk, pk2))
}

func gen_LineUp(r *verifvf.Rand) (string, difficulty.Modifier) { return gen_map(r) }

//verif:lemma
//verif:prop C18
//verif:bounded the number of sections of a whole map; that the peaks of all skills line up is proved in frames.go
func ctr_LineUp(text string, m difficulty.Modifier) {
	os, d := s_parse(text, m)
	p := CalculateStrainPeaks(os, d)
	n := 1
	if len(os) > 1 {
		first := math.Ceil(os[1].GetStartTime() / d.Speed / 400)
		last := math.Ceil(os[len(os)-1].GetStartTime() / d.Speed / 400)
		n = int(last-first) + 1
	}
	verifvf.Ensures("one aim peak for every section", len(p.Aim) == n)
	verifvf.Ensures("one speed peak for every section", len(p.Speed) == n)
	verifvf.Ensures("one total for every section", len(p.Total) == n)
	if d.Mods&difficulty.Flashlight != 0 {
		verifvf.Ensures("one flashlight peak for every section", len(p.Flashlight) == n)
	} else {
		verifvf.Ensures("no flashlight peaks without the mod", len(p.Flashlight) == 0)
	}
	for _, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		for _, x := range l {
			verifvf.Ensures("peaks are not negative", x >= 0)
		}
	}
	for i := range p.Total {
		fl := 0.0
		if p.Flashlight != nil {
			fl = p.Flashlight[i]
		}
		verifvf.Ensures("peaks combine index by index", verifvf.Same(p.Total[i], getStarsFromRawValues(p.Aim[i], p.Aim[i], p.Speed[i], fl, d, Attributes{}).Total))
	}
}

func gen_ReadOnly(r *verifvf.Rand) (string, difficulty.Modifier, difficulty.Modifier) {
	t, m := gen_map(r)
	return t, m, difficulty.Modifier(r.Mods())
}

//verif:lemma
//verif:prop C22
//verif:bounded deep comparison around whole calculations; the frames of all calculations are proved in frames.go
func ctr_ReadOnly(text string, m, m2 difficulty.Modifier) {
	bm, err := beatmap.ParseFromByte([]byte(text))
	verifvf.Requires(err == nil)
	d, os := bm.Difficulty, bm.HitObjects
	d2 := difficulty.NewDifficulty(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR())
	d.SetMods(m)
	d2.SetMods(m2)
	before := verifvf.Deep(bm) + verifvf.Deep(d2)
	unchanged := func(what string) {
		verifvf.Ensures(what+" changes nothing", verifvf.Deep(bm)+verifvf.Deep(d2) == before)
	}
	a := CalculateSingle(os, d)
	unchanged("a single calculation")
	CalculateSingleWithPeaks(os, d2)
	unchanged("a calculation with peaks")
	CalculateStep(os, d2)
	unchanged("a stepwise calculation")
	CalculateStepWithPeaks(os, d)
	unchanged("a stepwise calculation with peaks")
	CalculateStrainPeaks(os, d2)
	unchanged("a peak calculation")
	b := CalculateSingle(os, d2)
	pp := &PPv2{}
	pp.PPv2x(a, -1, -1, 0, 0, 0, d)
	unchanged("a performance calculation")
	verifvf.Ensures("the rating does not depend on earlier calculations", s_same(CalculateSingle(os, d), a) && s_same(CalculateSingle(os, d2), b))
}

// ---------- C13: malformed beatmaps

var s_hostile = []string{"", " ", "NaN", "-NaN", "inf", "-1", "0", "1e400", "-1e400", "99999", "-99999", "2147483648", "-2147483648",
	"1e-300", "0.0001", "abc", "1|2", "B|", "B", "P|1:2", "P|1:1|2:2|3:3", "L|:", "L|1:", "L|NaN:NaN", "C|0:0|0:0|0:0|0:0", "P|256:192|256:192|256:192",
	"Q|1:2|3:4", "B|1:1|1:1", "300", "1:2:3", "9223372036854775808", "8", "2", "1", "128", "12", "131073", "-131073", "6", "[HitObjects]", "//"}

// gen_text is a beatmap with some fields, lines or sections damaged.
func gen_text(r *verifvf.Rand) string {
	lines := strings.Split(r.BeatmapText(6), "\n")
	if r.Intn(6) == 0 {
		lines = append(lines, "[Events]", "2,100,200", "0,0,\"bg\"", "Break,1", "2", "Background,", "[TimingPoints]", "5,300", "6,", "7,-100,", "8,NaN,0")
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		i := r.Intn(len(lines))
		sep := ","
		if !strings.Contains(lines[i], ",") {
			sep = ":"
		}
		f := strings.Split(lines[i], sep)
		j := r.Intn(len(f))
		switch r.Intn(9) {
		case 0:
			f = f[:j]
		case 1:
			f = append(f, s_hostile[r.Intn(len(s_hostile))])
		case 2:
			lines[i] = lines[r.Intn(len(lines))]
			continue
		case 3:
			if k := len(lines[i]); k > 0 {
				lines[i] = lines[i][:r.Intn(k)]
			}
			continue
		case 4:
			if r.Intn(4) == 0 {
				lines = append(lines[:i], lines[i+1:]...)
				continue
			}
			fallthrough
		default:
			f[j] = s_hostile[r.Intn(len(s_hostile))]
		}
		lines[i] = strings.Join(f, sep)
	}
	return strings.Join(lines, "\n")
}

func gen_Malformed(r *verifvf.Rand) (string, difficulty.Modifier) {
	if r.Intn(40) == 0 {
		return r.BeatmapText(0), difficulty.Modifier(r.Mods())
	}
	return gen_text(r), difficulty.Modifier(r.Mods())
}

//verif:lemma
//verif:prop C13
//verif:bounded the parser reads its text through the standard library; random beatmaps of up to 6 objects with damaged fields, lines and sections
func ctr_Malformed(text string, m difficulty.Modifier) {
	bm, err := beatmap.ParseFromByte([]byte(text))
	verifvf.Ensures("a beatmap or an error", (bm == nil) == (err != nil))
	if err != nil {
		return
	}
	points := 0
	for _, o := range bm.HitObjects {
		if s, ok := o.(*objects.Slider); ok {
			points += len(s.ScorePoints)
		}
	}
	verifvf.Requires(points < 20000)
	bm.Difficulty.SetMods(m)
	a := CalculateSingle(bm.HitObjects, bm.Difficulty)
	s := CalculateStep(bm.HitObjects, bm.Difficulty)
	p := CalculateStrainPeaks(bm.HitObjects, bm.Difficulty)
	pp := &PPv2{}
	pp.PPv2x(a, -1, -1, 0, 0, 0, bm.Difficulty)
	verifvf.Ensures("a rating for every object", len(s) >= 0 && len(p.Total) >= 0)
}
