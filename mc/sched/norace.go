//go:build !race

package sched

// Racing says whether data races are detected
const Racing = false

func raceDisable() {}
func raceEnable()  {}

// Races counts the data races so far
func Races() int { return 0 }
