//go:build go1.21

// Package verifvf is the vocabulary of the contracts. The verifier gives every function here a symbolic
// meaning; the bodies below are the concrete meaning, used to look for a failing input once a proof failed.
package verifvf

import (
	"fmt"
	"math"
	"sort"
)

type skip struct{}

var (
	Failures []string
	Checked  int
)

// Requires states a precondition: assumed when the contract is verified, an obligation at every call.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Ensures states a postcondition.
func Ensures(name string, c bool) {
	Checked++
	if !c {
		Failures = append(Failures, "ensures "+name)
	}
}

// Assert is an intermediate claim, proved and then available.
func Assert(name string, c bool) {}

// Assume is an unchecked assumption; every use is listed in the evidence.
func Assume(name string, c bool) {}

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Tol is the tolerance of the concrete meaning of Eq, Le and Lt (the verifier decides them exactly over the reals).
var Tol = 1e-9

func tol(a, b float64) float64 {
	return Tol * (1 + math.Max(math.Abs(a), math.Abs(b)))
}

func Eq(a, b float64) bool {
	return a == b || math.Abs(a-b) <= tol(a, b)
}
func Le(a, b float64) bool { return a <= b || a-b <= tol(a, b) }
func Lt(a, b float64) bool { return a < b || a-b <= tol(a, b) }

// Same is Eq or both not-a-number.
func Same(a, b float64) bool { return Eq(a, b) || (math.IsNaN(a) && math.IsNaN(b)) }

func Fin(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Memo evaluates a function on 0..n-1 now, so that it can be consulted after the state has changed.
func Memo[T any](n int, f func(i int) T) func(i int) T {
	var a []T
	for i := 0; i < n; i++ {
		a = append(a, f(i))
	}
	return func(i int) T {
		if i < 0 || i >= len(a) {
			var z T
			return z
		}
		return a[i]
	}
}

// SortedDesc is the descending sort of f(0..n-1).
func SortedDesc(n int, f func(i int) float64) func(i int) float64 {
	var a []float64
	for i := 0; i < n; i++ {
		a = append(a, f(i))
	}
	sort.Float64s(a)
	return func(i int) float64 {
		if i < 0 || i >= len(a) {
			return 0
		}
		return a[len(a)-1-i]
	}
}

// Sum is the sum of f over 0..n-1.
//
//verif:rec
func Sum(n int, f func(i int) float64) float64 {
	if n <= 0 {
		return 0
	}
	return Sum(n-1, f) + f(n-1)
}

// Count is the number of i in 0..n-1 with f(i).
//
//verif:rec
func Count(n int, f func(i int) bool) int {
	if n <= 0 {
		return 0
	}
	if f(n - 1) {
		return Count(n-1, f) + 1
	}
	return Count(n-1, f)
}

// Modifies lists a memory location the subject may change; ModifiesElems the elements of a slice;
// ModifiesEach the locations f(0..n-1). Nothing else may change.
func Modifies(p any)                        {}
func ModifiesElems(s any)                   {}
func ModifiesEach(n int, f func(i int) any) {}
func ModifiesNothing()                      {}

// ModifiesAny: the field pointed to may change in every object of its type; ModifiesAnyElems: so may all elements of
// slices of that type.
func ModifiesAny(p any)      {}
func ModifiesAnyElems(s any) {}

// Invariant offers a loop invariant: parameters are bound to loop-carried values by type; an invariant that
// is not inductive is discarded, so offering one can never make a proof unsound.
func Invariant(f any) {}

// Apart: two slices or pointers do not share memory.
func Apart(p, q any) bool { return apart(p, q) }

// Split proves the postconditions that follow separately where c holds and where it does not.
func Split(c bool) {}

// Fresh: the reference was allocated by the subject.
func Fresh(p any) bool { return true }

// Concrete is true when the contract runs natively.
func Concrete() bool { return true }

func describe(x any) string { return fmt.Sprintf("%+v", x) }

var order []int

// SortOrder announces a stable sort the subject will do on n elements; SortFrom(j) is then the old index of the
// element at the new index j (for the verifier: the permutation of the sort the subject actually ran).
func SortOrder(n int, less func(i, j int) bool) {
	order = make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(order[j], order[j-1]); j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
}

func SortFrom(j int) int {
	if j < 0 || j >= len(order) {
		return -1
	}
	return order[j]
}
