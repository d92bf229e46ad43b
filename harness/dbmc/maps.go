package main

import (
	_ "unsafe" // linkname
)

// In the build for C19 the runtime asks this function where each iteration over a map starts
// (see mkoverlay.py); in the other builds nothing reads it.
//
//go:linkname mapHook runtime.verifMapHook
var mapHook func(n, b int) uintptr

// controlMaps makes the starts of all iterations over maps with at least two elements follow the plan.
func controlMaps(plan []int, r *Reply) func() {
	var choices []int
	mapHook = func(n, b int) uintptr {
		if n < 2 {
			return 0
		}
		opts := n
		if b > 0 {
			opts = 8 << b
		}
		i := len(choices)
		if i >= 4096 {
			return 0
		}
		choices = append(choices, opts)
		if i >= len(plan) {
			return 0
		}
		if b == 0 {
			return uintptr(plan[i])
		}
		return uintptr(plan[i]/(1<<b)<<b | plan[i]%(1<<b))
	}
	return func() {
		mapHook = nil
		r.Choices = choices
	}
}
