//go:build race
// +build race

package vsym

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
