package core

import "pgregory.net/rapid"

var flip = rapid.Bool()

// Uniform draws 0..n-1 without rapid's bias towards small values; it still
// shrinks towards 0.
func Uniform(t *rapid.T, n int) int {
	v := 0
	for k := 1; k < 8*n; k *= 2 {
		v *= 2
		if flip.Draw(t, "bit") {
			v++
		}
	}
	return v % n
}

// Pick draws an element of a list uniformly; it shrinks towards the first.
func Pick[V any](t *rapid.T, list []V) V { return list[Uniform(t, len(list))] }

// Chance is true in one of n cases; it shrinks towards false.
func Chance(t *rapid.T, n int) bool { return Uniform(t, n) == n-1 }
