//go:build !points

package props

const instrumented = false

func setPoints(func()) {}
