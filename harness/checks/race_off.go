//go:build sched && !race

package checks

func raceErrors() int { return 0 }
