// Package zzyield is called before every statement of the instrumented copies used to reproduce schedules.
package zzyield

import (
	"runtime"
	"sync/atomic"
	"time"
)

var seed uint64
var mode int32

// Set configures the jitter: 0 off, 1 yields, 2 yields and short sleeps, 3 mostly sleeps.
func Set(m int, s int64) {
	atomic.StoreUint64(&seed, uint64(s)*0x9E3779B97F4A7C15+1)
	atomic.StoreInt32(&mode, int32(m))
}

// Y perturbs the schedule.
func Y() {
	m := atomic.LoadInt32(&mode)
	if m == 0 {
		return
	}
	x := atomic.AddUint64(&seed, 0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	switch m {
	case 1:
		if x%4 == 0 {
			runtime.Gosched()
		}
	case 2:
		switch {
		case x%16 == 0:
			time.Sleep(time.Duration((x>>8)%200) * time.Microsecond)
		case x%3 == 0:
			runtime.Gosched()
		}
	default:
		if x%3 == 0 {
			time.Sleep(time.Duration((x>>8)%400) * time.Microsecond)
		} else if x%3 == 1 {
			runtime.Gosched()
		}
	}
}
