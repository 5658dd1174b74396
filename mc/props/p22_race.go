//go:build race

package props

import "runtime"

const raceMonitored = true

// Synchronization of the scheduler orders nothing for the race monitor.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
