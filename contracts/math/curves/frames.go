//go:build go1.21

package curves

import "github.com/Wieku/gosu-pp/verifvf"

//verif:contract (*MultiCurve).PointAt
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:inline PointAt
//verif:prop C22
func ctr_PointAtAny(c *MultiCurve, t float32) {
	verifvf.Requires(c != nil)
	verifvf.Requires(len(c.sections) == len(c.lines)+1)
	verifvf.ModifiesNothing()
	c.PointAt(t)
}

// S_Structure is what every curve made by NewMultiCurve has.
func S_Structure(c *MultiCurve) bool { return len(c.sections) == len(c.lines)+1 }

func gen_PointAtAny(r *verifvf.Rand) (*MultiCurve, float32) { return gen_PointAt(r) }
