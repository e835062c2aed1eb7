//go:build !race
// +build !race

package vsym

func raceErrors() int { return 0 }
