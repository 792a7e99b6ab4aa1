//go:build !race

package simrt

const RaceBuild = false

func raceOff() {}
func raceOn()  {}
