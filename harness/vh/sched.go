//go:build go1.25 && sched

package vh

import (
	"os"
	"sync"
	"time"

	"github.com/unit-io/unitdb/server/zzverif/vsync"
)

func init() {
	schedule = explore
}

// explore lets goroutines wait for a moment of virtual time, drawn from the seed, wherever another goroutine may
// go on. Since the moments differ, one goroutine runs at a time and the schedule repeats with the seed.
func explore(seed int64) func() {
	var mu sync.Mutex
	x := uint64(seed) * 0x9e3779b97f4a7c15
	next := func(n uint64) uint64 {
		x++
		return splitmix(x) % n
	}
	// often for a short time, or rarely for a longer one
	often := []uint64{1, 1, 2, 4, 20, 100, 500}[next(7)]
	scale := []uint64{40, 300, 3000}[next(3)]
	if often >= 20 {
		scale = []uint64{300, 5000, 60000}[next(3)]
	}
	step := func() {
		mu.Lock()
		var d time.Duration
		if next(often) == 0 {
			d = time.Duration(1 + next(scale))
		}
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
	}
	vsync.SetStep(step)
	os.VerifSetStep(step)
	pause = func(f func()) {
		os.VerifSetStep(nil)
		defer os.VerifSetStep(step)
		f()
	}
	return func() {
		pause = nil
		vsync.SetStep(nil)
		os.VerifSetStep(nil)
	}
}
