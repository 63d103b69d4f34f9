//go:build faketime

package runtime

import "unsafe"

// faketime stays zero: the virtual clock in sim.go is used instead.
var faketime int64

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return simNow
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	t := simEpoch + simNow
	if gp := getg(); gp != nil && gp.m != nil {
		if gp == gp.m.g0 {
			t += simOff[simTimerNode]
		} else {
			t += simOff[gp.simNode]
		}
	}
	return t / 1e9, int32(t % 1e9), simNow
}

//go:nowritebarrierrec
func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	return write1(fd, p, n)
}
