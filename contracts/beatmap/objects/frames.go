//go:build go1.21

package objects

// Asking a slider for positions changes nothing, whatever the slider and the time (C22).

import (
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/verifvf"
)

//verif:fnspec objects.HitObject.PositionDelegate
//verif:alt
//verif:lemma
//verif:nonfinite
//verif:allanyfloat
func ctr_positionAny(h *HitObject, f func(time float64) vector.Vector2f, time float64) {
	verifvf.ModifiesNothing()
	f(time)
}

//verif:contract (*Slider).PositionAt
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use curves.ctr_PointAtAny
//verif:prop C22
func ctr_PositionAtAny(s *Slider, time float64) {
	verifvf.Requires(s != nil && s.HitObject != nil && s.multiCurve != nil)
	verifvf.Requires(curves.S_Structure(s.multiCurve))
	verifvf.ModifiesNothing()
	s.PositionAt(time)
}

func gen_PositionAtAny(r *verifvf.Rand) (*Slider, float64) {
	return gen_timedSlider(r), r.Float64() * 3000
}
