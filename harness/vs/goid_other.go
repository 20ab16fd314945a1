//go:build !amd64

package vs

// Goid is the number of the calling goroutine.
func Goid() uint64 { return slowGoid() }
