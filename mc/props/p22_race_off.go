//go:build !race

package props

const raceMonitored = false

func raceOff() {}
func raceOn()  {}
