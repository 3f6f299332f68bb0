//go:build !race

package vsync

func RaceErrors() int { return 0 }

const RaceEnabled = false
