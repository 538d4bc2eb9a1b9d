//go:build go1.21

package preprocessing

// Contracts of the difficulty objects (C17).
//
//verif:anyfloat preprocessing.DifficultyObject.Angle

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/verifvf"
)

func s_spinner(o objects.IHitObject) bool {
	_, ok := o.(*objects.Spinner)
	return ok
}

func s_lazy(o objects.IHitObject) bool {
	_, ok := o.(*LazySlider)
	return ok
}

func gen_diffObject(r *verifvf.Rand) (a, b, c objects.IHitObject, d *difficulty.Difficulty) {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(8)))
		if err != nil || len(bm.HitObjects) < 3 {
			continue
		}
		d = bm.Difficulty
		d.SetMods(difficulty.Modifier(r.Mods()))
		var os []objects.IHitObject
		for _, o := range bm.HitObjects {
			if s, ok := o.(*objects.Slider); ok {
				o = NewLazySlider(s, d)
			}
			os = append(os, o)
		}
		i := 2 + r.Intn(len(os)-2)
		if r.Intn(5) == 0 {
			return os[i], nil, os[i-1], d
		}
		return os[i], os[i-2], os[i-1], d
	}
}

func gen_NewDifficultyObject(r *verifvf.Rand) (a, b, c objects.IHitObject, d *difficulty.Difficulty) {
	return gen_diffObject(r)
}

//verif:contract NewDifficultyObject
//verif:opaque
//verif:prop C17
//verif:fresh
//verif:eagerfin
func ctr_NewDifficultyObject(o, lastLast, last objects.IHitObject, d *difficulty.Difficulty) {
	verifvf.Requires(o != nil && last != nil && d != nil)
	verifvf.Requires(d.Speed > 0)
	verifvf.Requires(d.CircleRadius > 0)
	if l, ok := last.(*LazySlider); ok {
		verifvf.Requires(l != nil && l.LazyTravelDistance >= 0)
	}
	verifvf.ModifiesNothing()
	r := NewDifficultyObject(o, lastLast, last, d)
	verifvf.Ensures("an object is returned", r != nil)
	verifvf.Ensures("it describes the object", r.BaseObject == o)
	verifvf.Ensures("start time", verifvf.Eq(r.StartTime, o.GetStartTime()/d.Speed))
	verifvf.Ensures("end time", verifvf.Eq(r.EndTime, o.GetEndTime()/d.Speed))
	verifvf.Ensures("delta time", verifvf.Eq(r.DeltaTime, (o.GetStartTime()-last.GetStartTime())/d.Speed))
	verifvf.Ensures("strain time", verifvf.Eq(r.StrainTime, math.Max(r.DeltaTime, 25)))
	verifvf.Ensures("distances are not negative", r.JumpDistance >= 0 && r.MovementDistance >= 0 && r.TravelDistance >= 0)
	verifvf.Ensures("the movement is no longer than the jump", r.MovementDistance <= r.JumpDistance)
	next := s_spinner(o) || s_spinner(last)
	verifvf.Ensures("no distances next to a spinner", !next || r.JumpDistance == 0 && r.MovementDistance == 0 && r.TravelDistance == 0)
	verifvf.Ensures("no times next to a spinner", !next || r.MovementTime == 0 && r.TravelTime == 0)
	verifvf.Ensures("movement time", next || r.MovementTime >= 25)
	verifvf.Ensures("travel time after a slider", next || s_lazy(last) && r.TravelTime >= 25 || !s_lazy(last) && r.TravelTime == 0)
	noAngle := next || lastLast == nil || s_spinner(lastLast)
	verifvf.Ensures("the angle is absent exactly for the first pair and next to spinners", math.IsNaN(r.Angle) == noAngle)
	verifvf.Ensures("the angle lies between 0 and pi", noAngle || r.Angle >= 0 && r.Angle <= math.Pi+1e-6)
}

func s_sliderOf(r *verifvf.Rand) (*objects.Slider, *difficulty.Difficulty) {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(5)))
		if err != nil {
			continue
		}
		bm.Difficulty.SetMods(difficulty.Modifier(r.Mods()))
		for _, o := range bm.HitObjects {
			if s, ok := o.(*objects.Slider); ok {
				return s, bm.Difficulty
			}
		}
	}
}

func gen_NewLazySlider(r *verifvf.Rand) (*objects.Slider, *difficulty.Difficulty) { return s_sliderOf(r) }

func gen_calculateEndPosition(r *verifvf.Rand) *LazySlider {
	s, d := s_sliderOf(r)
	return &LazySlider{Slider: s, diff: d}
}

//verif:contract (*LazySlider).calculateEndPosition
//verif:prop C17
//verif:opaque
//verif:eagerfin
func ctr_calculateEndPosition(l *LazySlider) {
	verifvf.Requires(l != nil && l.diff != nil && l.Slider != nil)
	verifvf.Requires(l.Slider.HitObject != nil)
	verifvf.Requires(l.diff.CircleRadius > 0)
	verifvf.Requires(len(l.ScorePoints) > 0)
	verifvf.Requires(l.RepeatCount >= 1)
	verifvf.Requires(l.LazyTravelDistance >= 0)
	verifvf.Modifies(&l.LazyEndPosition)
	verifvf.Modifies(&l.LazyTravelDistance)
	verifvf.Modifies(&l.LazyTravelTime)
	verifvf.Invariant(func() bool { return l.LazyTravelDistance >= 0 })
	l.calculateEndPosition()
	verifvf.Ensures("the travel distance is not negative", l.LazyTravelDistance >= 0)
	verifvf.Ensures("the travel time ends at the last scoring point", verifvf.Eq(l.LazyTravelTime, l.ScorePoints[len(l.ScorePoints)-1].Time-l.StartTime))
}

//verif:contract NewLazySlider
//verif:prop C17
//verif:opaque
//verif:fresh
//verif:eagerfin
func ctr_NewLazySlider(s *objects.Slider, d *difficulty.Difficulty) {
	verifvf.Requires(s != nil && d != nil)
	verifvf.Requires(s.HitObject != nil)
	verifvf.Requires(d.CircleRadius > 0)
	verifvf.Requires(len(s.ScorePoints) > 0)
	verifvf.Requires(s.RepeatCount >= 1)
	verifvf.ModifiesNothing()
	l := NewLazySlider(s, d)
	verifvf.Ensures("a lazy slider is returned", l != nil)
	verifvf.Ensures("it decorates the slider", l.Slider == s)
	verifvf.Ensures("the travel distance is not negative", l.LazyTravelDistance >= 0)
	verifvf.Ensures("the travel time ends at the last scoring point", verifvf.Eq(l.LazyTravelTime, s.ScorePoints[len(s.ScorePoints)-1].Time-s.StartTime))
}

func gen_Create(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(8)))
		if err == nil {
			bm.Difficulty.SetMods(difficulty.Modifier(r.Mods()))
			return bm.HitObjects, bm.Difficulty
		}
	}
}

func s_ready(o objects.IHitObject) bool {
	if s, ok := o.(*objects.Slider); ok {
		return s != nil && s.HitObject != nil && len(s.ScorePoints) > 0 && s.RepeatCount >= 1
	}
	return o != nil && !s_lazy(o)
}

// s_timesOK is what the strain skills rely on.
func s_timesOK(o *DifficultyObject) bool {
	return o.StrainTime == math.Max(o.DeltaTime, 25) && o.MovementDistance <= o.JumpDistance &&
		(o.MovementTime == 0 || o.MovementTime >= 25) && (o.TravelTime == 0 || o.TravelTime >= 25)
}

func s_sliderObj(o objects.IHitObject) bool {
	_, ok := o.(*objects.Slider)
	return ok
}

func s_travelled(o objects.IHitObject) bool {
	if l, ok := o.(*LazySlider); ok {
		return l != nil && l.LazyTravelDistance >= 0
	}
	return true
}

// s_of: the difficulty object's object is o or its lazy slider.
func s_of(b, o objects.IHitObject) bool {
	if s, ok := o.(*objects.Slider); ok {
		l, ok := b.(*LazySlider)
		return ok && l.Slider == s
	}
	return b == o
}

//verif:contract CreateDifficultyObjects
//verif:prop C17
//verif:fresh
func ctr_Create(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(d.Speed > 0)
	verifvf.Requires(d.CircleRadius > 0)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return s_ready(os[i]) }))
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, objs []objects.IHitObject) bool { return len(objs) == k })
	verifvf.Invariant(func(k int, objs []objects.IHitObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return s_of(objs[i], os[i]) })
	})
	verifvf.Invariant(func(k int, objs []objects.IHitObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return s_travelled(objs[i]) })
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool { return len(diffObjects) == k })
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return diffObjects[i] != nil && s_of(diffObjects[i].BaseObject, os[i+1]) })
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return diffObjects[i].StartTime == os[i+1].GetStartTime()/d.Speed })
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return diffObjects[i].DeltaTime == (os[i+1].GetStartTime()-os[i].GetStartTime())/d.Speed
		})
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return diffObjects[i].JumpDistance >= 0 && diffObjects[i].MovementDistance >= 0 && diffObjects[i].TravelDistance >= 0
		})
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return math.IsNaN(diffObjects[i].Angle) == (i == 0 || s_spinner(os[i-1]) || s_spinner(os[i]) || s_spinner(os[i+1]))
		})
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool { return s_timesOK(diffObjects[i]) })
	})
	verifvf.Invariant(func(k int, diffObjects []*DifficultyObject) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return s_spinner(os[i+1]) || s_spinner(os[i]) || diffObjects[i].MovementTime >= 25 && (!s_sliderObj(os[i]) || diffObjects[i].TravelTime >= 25)
		})
	})
	ds := CreateDifficultyObjects(os, d)
	m := n - 1
	if n == 0 {
		m = 0
	}
	verifvf.Ensures("one difficulty object for every object but the first", len(ds) == m)
	verifvf.Ensures("in order", verifvf.Forall(0, m, func(i int) bool { return s_of(ds[i].BaseObject, os[i+1]) }))
	verifvf.Ensures("start times", verifvf.Forall(0, m, func(i int) bool {
		return verifvf.Eq(ds[i].StartTime, os[i+1].GetStartTime()/d.Speed)
	}))
	verifvf.Ensures("delta times", verifvf.Forall(0, m, func(i int) bool {
		return verifvf.Eq(ds[i].DeltaTime, (os[i+1].GetStartTime()-os[i].GetStartTime())/d.Speed)
	}))
	verifvf.Ensures("distances", verifvf.Forall(0, m, func(i int) bool {
		return ds[i].JumpDistance >= 0 && ds[i].MovementDistance >= 0 && ds[i].TravelDistance >= 0
	}))
	verifvf.Ensures("strain time and the movement within the jump", verifvf.Forall(0, m, func(i int) bool { return s_timesOK(ds[i]) }))
	verifvf.Ensures("movement and travel times", verifvf.Forall(0, m, func(i int) bool {
		return s_spinner(os[i+1]) || s_spinner(os[i]) || ds[i].MovementTime >= 25 && (!s_sliderObj(os[i]) || ds[i].TravelTime >= 25)
	}))
	verifvf.Ensures("angles", verifvf.Forall(0, m, func(i int) bool {
		return math.IsNaN(ds[i].Angle) == (i == 0 || s_spinner(os[i-1]) || s_spinner(os[i]) || s_spinner(os[i+1]))
	}))
}
