//go:build race

package sched

import "runtime"

// Racing says whether data races are detected
const Racing = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// Races counts the data races so far
func Races() int { return runtime.RaceErrors() }
