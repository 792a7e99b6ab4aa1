//go:build race

package simrt

import "runtime"

const RaceBuild = true

// raceOff makes the race detector ignore the synchronisation the simulator
// itself performs, so that handing over the baton orders nothing.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
