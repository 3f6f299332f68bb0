//go:build race

package vsync

import "runtime"

// RaceErrors is the number of data races reported so far; RaceEnabled says whether they are looked for.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceEnabled = true
