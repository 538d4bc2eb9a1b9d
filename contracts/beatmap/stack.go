//go:build go1.21

package beatmap

// Contracts of stacking (C16).

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/verifvf"
)

//verif:contract processStacking
//verif:prop C16
func ctr_processStacking(hit []objects.IHitObject, version int, diff *difficulty.Difficulty, leniency float64, h *objects.HitObject) {
	verifvf.Requires(diff != nil && diff.Mods == difficulty.None)
	verifvf.ModifiesAny(&h.StackIndex)
	verifvf.ModifiesAny(&h.StackIndexEZ)
	verifvf.ModifiesAny(&h.StackIndexHR)
	verifvf.ModifiesAny(&h.StackOffset)
	// An object that is in no list entry, or only in entries that are no spinners.
	verifvf.Requires(h != nil)
	verifvf.Requires(verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || objects.S_Base(hit[i]) != h }))
	a, b := h.StackIndexEZ, h.StackIndexHR
	verifvf.Invariant(func() bool { return h.StackIndexEZ == a && h.StackIndexHR == b })
	r := diff.CircleRadius
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return objects.S_Base(hit[i]) != h || h.StackOffset == s_offset(h.StackIndex, r)
		})
	})
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) })
	})
	processStacking(hit, version, diff, leniency)
	verifvf.Ensures("spinners have height 0", verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) }))
	verifvf.Ensures("the heights of the other modes stay", h.StackIndexEZ == a && h.StackIndexHR == b)
	verifvf.Ensures("an object is displaced by its height of the mode", verifvf.Forall(0, len(hit), func(i int) bool {
		return objects.S_Base(hit[i]) != h || h.StackOffset == s_offset(h.StackIndex, r)
	}))
}

//verif:contract processStacking
//verif:prop C16
func ctr_processStackingEZ(hit []objects.IHitObject, version int, diff *difficulty.Difficulty, leniency float64, h *objects.HitObject) {
	verifvf.Requires(diff != nil && diff.Mods == difficulty.Easy)
	verifvf.ModifiesAny(&h.StackIndex)
	verifvf.ModifiesAny(&h.StackIndexEZ)
	verifvf.ModifiesAny(&h.StackIndexHR)
	verifvf.ModifiesAny(&h.StackOffsetEZ)
	// An object that is in no list entry, or only in entries that are no spinners.
	verifvf.Requires(h != nil)
	verifvf.Requires(verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || objects.S_Base(hit[i]) != h }))
	a, b := h.StackIndex, h.StackIndexHR
	verifvf.Invariant(func() bool { return h.StackIndex == a && h.StackIndexHR == b })
	r := diff.CircleRadius
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return objects.S_Base(hit[i]) != h || h.StackOffsetEZ == s_offset(h.StackIndexEZ, r)
		})
	})
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) })
	})
	processStacking(hit, version, diff, leniency)
	verifvf.Ensures("spinners have height 0", verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) }))
	verifvf.Ensures("the heights of the other modes stay", h.StackIndex == a && h.StackIndexHR == b)
	verifvf.Ensures("an object is displaced by its height of the mode", verifvf.Forall(0, len(hit), func(i int) bool {
		return objects.S_Base(hit[i]) != h || h.StackOffsetEZ == s_offset(h.StackIndexEZ, r)
	}))
}

//verif:contract processStacking
//verif:prop C16
func ctr_processStackingHR(hit []objects.IHitObject, version int, diff *difficulty.Difficulty, leniency float64, h *objects.HitObject) {
	verifvf.Requires(diff != nil && diff.Mods == difficulty.HardRock)
	verifvf.ModifiesAny(&h.StackIndex)
	verifvf.ModifiesAny(&h.StackIndexEZ)
	verifvf.ModifiesAny(&h.StackIndexHR)
	verifvf.ModifiesAny(&h.StackOffsetHR)
	// An object that is in no list entry, or only in entries that are no spinners.
	verifvf.Requires(h != nil)
	verifvf.Requires(verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || objects.S_Base(hit[i]) != h }))
	a, b := h.StackIndex, h.StackIndexEZ
	verifvf.Invariant(func() bool { return h.StackIndex == a && h.StackIndexEZ == b })
	r := diff.CircleRadius
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return objects.S_Base(hit[i]) != h || h.StackOffsetHR == s_offset(h.StackIndexHR, r)
		})
	})
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) })
	})
	processStacking(hit, version, diff, leniency)
	verifvf.Ensures("spinners have height 0", verifvf.Forall(0, len(hit), func(i int) bool { return !s_spinner(hit[i]) || s_flat(objects.S_Base(hit[i])) }))
	verifvf.Ensures("the heights of the other modes stay", h.StackIndex == a && h.StackIndexEZ == b)
	verifvf.Ensures("an object is displaced by its height of the mode", verifvf.Forall(0, len(hit), func(i int) bool {
		return objects.S_Base(hit[i]) != h || h.StackOffsetHR == s_offset(h.StackIndexHR, r)
	}))
}

func s_spinner(o objects.IHitObject) bool {
	_, ok := o.(*objects.Spinner)
	return ok
}

// s_offset is the displacement for a stack height.
func s_offset(height int, radius float64) vector.Vector2f {
	v := -float32(height) * float32(radius) / 10
	return vector.Vector2f{X: v, Y: v}
}

func s_flat(h *objects.HitObject) bool {
	return h.StackIndex == 0 && h.StackIndexEZ == 0 && h.StackIndexHR == 0
}
