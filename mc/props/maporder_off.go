//go:build !maporder

package props

const orderControlled = false

func controlled(r *orderRun, f func()) {
	panic("engine: P14 is built with -tags maporder and the overlay of overlay/make.sh")
}

func siteName(pc uintptr) string { return "" }
