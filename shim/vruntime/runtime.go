// Package vruntime replaces the parts of runtime that depend on real goroutines or change process-wide settings.
package vruntime

import (
	"fmt"
	"runtime"
	"vshim/vsched"
)

var (
	// BlockRate and MutexFraction are the profiling settings in force.
	BlockRate     int
	MutexFraction int
	// Mem is what ReadMemStats reports.
	Mem runtime.MemStats
	// Cgo is what NumCgoCall reports.
	Cgo int64
)

func init() {
	vsched.OnReset(func() { BlockRate, MutexFraction, Cgo = 0, 0, 0; Mem = runtime.MemStats{HeapAlloc: 1 << 20} })
}

func Gosched()             { vsched.Point("Gosched") }
func NumGoroutine() int    { return vsched.NumAlive() }
func NumCgoCall() int64    { return Cgo }
func GC()                  {}
func GOMAXPROCS(n int) int { return 4 }
func NumCPU() int          { return 4 }
func SetBlockProfileRate(r int) {
	vsched.Point("SetBlockProfileRate")
	if r < 0 {
		r = 0
	}
	BlockRate = r
}
func SetMutexProfileFraction(r int) int {
	vsched.Point("SetMutexProfileFraction")
	o := MutexFraction
	if r >= 0 {
		MutexFraction = r
	}
	return o
}
func ReadMemStats(m *runtime.MemStats) { *m = Mem }
func Stack(b []byte, all bool) int {
	id := 0
	if t := vsched.Self(); t != nil {
		id = t.ID + 1
	}
	return copy(b, fmt.Sprintf("goroutine %d [running]:\nmain.main()\n\t/app/main.go:1 +0x1\n", id))
}
