//go:build !race

package sched

func raceDisable() {}
func raceEnable()  {}
