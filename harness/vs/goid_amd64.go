package vs

import (
	"runtime"
	"unsafe"
)

func getg() unsafe.Pointer

// goidOffset is where a goroutine keeps its number, or 0.
var goidOffset = func() uintptr {
	found := map[uintptr]int{}
	const n = 5
	for i := 0; i < n; i++ {
		done := make(chan bool)
		go func() {
			id, g := slowGoid(), getg()
			for o := uintptr(8); o < 400; o += 8 {
				if *(*uint64)(unsafe.Add(g, o)) == id {
					found[o]++
				}
			}
			done <- true
		}()
		<-done
		runtime.Gosched()
	}
	at := uintptr(0)
	for o, k := range found {
		if k == n {
			if at != 0 {
				return 0
			}
			at = o
		}
	}
	return at
}()

// Goid is the number of the calling goroutine.
func Goid() uint64 {
	if goidOffset == 0 {
		return slowGoid()
	}
	return *(*uint64)(unsafe.Add(getg(), goidOffset))
}
