//go:build go1.21

package objects

// Contracts of the creation of hit objects (C13).

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/verifvf"
)

var s_odd = []string{"", "NaN", "inf", "-1", "0", "1e400", "99999", "131073", "-2147483649", "abc", "1|2", "B|", "B", "P|1:2", "L|:", "9000", "2", "8", "128", "1", "12", "6"}

func gen_data(r *verifvf.Rand) []string {
	l, _ := r.HitObjectLine(r.Intn(2000))
	f := strings.Split(l, ",")
	for r.Intn(2) == 0 {
		switch r.Intn(4) {
		case 0:
			f = f[:r.Intn(len(f)+1)]
		case 1:
			f = append(f, s_odd[r.Intn(len(s_odd))])
		default:
			if len(f) > 0 {
				f[r.Intn(len(f))] = s_odd[r.Intn(len(s_odd))]
			}
		}
	}
	if r.Intn(8) == 0 && len(f) > 7 {
		f = append(f[:8], fmt.Sprintf("%d|%d|2|x", r.Intn(9), r.Intn(9)))
	}
	return f
}

func s_type(data []string) Type {
	t, _ := strconv.Atoi(data[3])
	return Type(t)
}

//verif:contract IsValidData
//verif:prop C13
//verif:opaque
//verif:pure
func ctr_IsValidData(data []string) {
	verifvf.ModifiesNothing()
	in := func(i int, limit float64) bool {
		v, _ := strconv.ParseFloat(data[i], 64)
		return verifvf.Fin(v) && v >= -limit && v <= limit
	}
	ok := IsValidData(data)
	verifvf.Ensures("a valid line has a position and a time in range", !ok || in(0, maxCoordinate) && in(1, maxCoordinate) && in(2, maxTime))
	verifvf.Ensures("a valid spinner has its end in range", !ok || s_type(data)&CIRCLE != 0 || s_type(data)&SPINNER == 0 || in(5, maxTime))
	verifvf.Ensures("a valid slider has its length in range", !ok || s_type(data)&CIRCLE != 0 || s_type(data)&SPINNER != 0 || s_type(data)&SLIDER == 0 || in(7, maxCoordinate))
	verifvf.Ensures("a valid line has the common fields", !ok || len(data) >= 5)
	verifvf.Ensures("a valid spinner has its end", !ok || s_type(data)&CIRCLE != 0 || s_type(data)&SPINNER == 0 || len(data) > 5)
	verifvf.Ensures("a valid slider has its path and length", !ok || s_type(data)&CIRCLE != 0 || s_type(data)&SPINNER != 0 || s_type(data)&SLIDER == 0 || len(data) > 7)
	verifvf.Ensures("a valid hold has its end", !ok || s_type(data)&(CIRCLE|SPINNER|SLIDER) != 0 || s_type(data)&LONGNOTE == 0 || len(data) > 5)
}

func gen_IsValidData(r *verifvf.Rand) []string { return gen_data(r) }

//verif:contract CreateObject
//verif:prop C13
//verif:nilcheck
func ctr_CreateObject(data []string) {
	verifvf.Requires(IsValidData(data))
	t := s_type(data)
	o := CreateObject(data)
	known := t&(CIRCLE|SPINNER|SLIDER) != 0
	verifvf.Ensures("an object for every known type", (o != nil) == known)
	verifvf.Ensures("a created object has its common part", o == nil || S_Base(o) != nil)
	if s, ok := o.(*Slider); ok {
		verifvf.Ensures("a slider has a path, repeats and no points yet", s.multiCurve != nil && s.RepeatCount >= 1 && s.RepeatCount <= maxRepeats && len(s.ScorePoints) == 0)
		verifvf.Ensures("a slider has a well-formed path", curves.S_Curve(s.multiCurve))
	}
}

func gen_CreateObject(r *verifvf.Rand) []string { return gen_data(r) }
