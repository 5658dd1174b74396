//go:build maporder

package props

import (
	"context"
	"fmt"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

// verifOrder is the decision of the overlaid map iterator, see overlay/make.sh.
//
//go:linkname verifOrder internal/runtime/maps.VerifOrder
var verifOrder func(used uint64) uint64

//go:linkname runtime_getProfLabel runtime/pprof.runtime_getProfLabel
func runtime_getProfLabel() unsafe.Pointer

const orderControlled = true

// orderSlot is the plan of a goroutine, which is found by the labels of the goroutine.
type orderSlot struct {
	label unsafe.Pointer
	busy  bool
	run   *orderRun
}

var (
	orderMu    sync.Mutex
	orderSlots [64]orderSlot
)

func init() {
	verifOrder = func(used uint64) uint64 {
		l := runtime_getProfLabel()
		if l == nil {
			return 0
		}
		for i := range orderSlots {
			if atomic.LoadPointer(&orderSlots[i].label) == l {
				return orderSlots[i].run.next(used, site())
			}
		}
		return 0
	}
}

// site is the place of the iteration if it is in a package of the library or of its schema reflector. Others, like encoders
// of JSON and YAML, sort what they iterate.
func site() uintptr {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	for _, pc := range pcs[:n] {
		f := runtime.FuncForPC(pc - 1)
		if f == nil {
			continue
		}
		name := f.Name()
		switch {
		case strings.HasPrefix(name, "runtime."), strings.HasPrefix(name, "internal/runtime/maps."), strings.HasPrefix(name, "reflect."),
			strings.HasPrefix(name, "maps."), strings.HasPrefix(name, "slices."), strings.HasPrefix(name, "iter."):
			continue
		}
		if strings.HasPrefix(name, "github.com/swaggest/") {
			return pc
		}
		return 0
	}
	return 0
}

func siteName(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return fmt.Sprintf("%s:%d", f.File[strings.LastIndex(f.File, "swaggest")+9:], f.Line)
}

// controlled runs f with the iteration orders of the run.
func controlled(r *orderRun, f func()) {
	orderMu.Lock()
	i := 0
	for orderSlots[i].busy {
		i++
	}
	orderSlots[i].busy = true
	orderSlots[i].run = r
	orderMu.Unlock()
	pprof.Do(context.Background(), pprof.Labels("order", strconv.Itoa(i)), func(context.Context) {
		atomic.StorePointer(&orderSlots[i].label, runtime_getProfLabel())
		defer func() {
			atomic.StorePointer(&orderSlots[i].label, nil)
			orderMu.Lock()
			orderSlots[i].busy = false
			orderMu.Unlock()
		}()
		f()
	})
}
