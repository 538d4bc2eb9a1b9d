//go:build go1.21

package preprocessing

// What making difficulty objects can change at all: nothing but the new objects (C21, C22). Weaker contracts than those of
// objects.go, with fewer preconditions; the calculations name them in their use directives.

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/verifvf"
)

func gen_LazyAny(r *verifvf.Rand) (*objects.Slider, *difficulty.Difficulty) { return s_sliderOf(r) }

//verif:contract (*LazySlider).calculateEndPosition
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use objects.ctr_positionAny
//verif:prop C22
func ctr_EndPositionAny(l *LazySlider) {
	verifvf.Requires(l != nil && l.diff != nil && l.Slider != nil)
	verifvf.Requires(l.Slider.HitObject != nil)
	verifvf.Requires(len(l.ScorePoints) > 0)
	verifvf.Modifies(&l.LazyEndPosition)
	verifvf.Modifies(&l.LazyTravelDistance)
	verifvf.Modifies(&l.LazyTravelTime)
	l.calculateEndPosition()
}

func gen_EndPositionAny(r *verifvf.Rand) *LazySlider { return gen_calculateEndPosition(r) }

//verif:contract NewLazySlider
//verif:alt
//verif:opaque
//verif:fresh
//verif:nonfinite
//verif:allanyfloat
//verif:use preprocessing.ctr_EndPositionAny
//verif:prop C22
func ctr_LazyAny(s *objects.Slider, d *difficulty.Difficulty) {
	verifvf.Requires(s != nil && d != nil)
	verifvf.Requires(s.HitObject != nil)
	verifvf.Requires(len(s.ScorePoints) > 0)
	verifvf.ModifiesNothing()
	l := NewLazySlider(s, d)
	verifvf.Ensures("a lazy slider is returned", l != nil)
	verifvf.Ensures("it decorates the slider", l.Slider == s)
}

//verif:contract NewDifficultyObject
//verif:alt
//verif:opaque
//verif:fresh
//verif:nonfinite
//verif:allanyfloat
//verif:use objects.ctr_positionAny preprocessing.ctr_EndPositionAny
//verif:prop C22
func ctr_DifficultyObjectAny(hitObject, lastLastObject, lastObject objects.IHitObject, d *difficulty.Difficulty) {
	verifvf.Requires(hitObject != nil && lastObject != nil && d != nil)
	verifvf.ModifiesNothing()
	o := NewDifficultyObject(hitObject, lastLastObject, lastObject, d)
	verifvf.Ensures("an object is returned", o != nil)
}

func gen_DifficultyObjectAny(r *verifvf.Rand) (hitObject, lastLastObject, lastObject objects.IHitObject, d *difficulty.Difficulty) {
	return gen_NewDifficultyObject(r)
}

//verif:contract CreateDifficultyObjects
//verif:alt
//verif:opaque
//verif:fresh
//verif:nonfinite
//verif:allanyfloat
//verif:use preprocessing.ctr_LazyAny preprocessing.ctr_DifficultyObjectAny
//verif:prop C22
func ctr_CreateAny(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return s_ready(os[i]) }))
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, objs []objects.IHitObject) bool { return len(objs) == k })
	verifvf.Invariant(func(k int, objs []objects.IHitObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return objs[i] != nil })
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool { return len(diffObjects) == k })
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return diffObjects[i] != nil })
	})
	ds := CreateDifficultyObjects(os, d)
	m := n - 1
	if n == 0 {
		m = 0
	}
	verifvf.Ensures("one difficulty object for every object but the first", len(ds) == m)
	verifvf.Ensures("no nil objects", verifvf.Forall(0, m, func(i int) bool { return ds[i] != nil }))
}

func gen_CreateAny(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) { return gen_Create(r) }

// S_Ready is what a parsed object has: sliders with scoring points.
func S_Ready(o objects.IHitObject) bool { return s_ready(o) }
