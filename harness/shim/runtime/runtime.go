// Package runtime stands in for runtime in instrumented copies.
package runtime

import (
	real "runtime"
)

func Gosched()              {}
func NumCPU() int           { return real.NumCPU() }
func GOMAXPROCS(n int) int  { return real.GOMAXPROCS(0) }
func NumGoroutine() int     { return real.NumGoroutine() }
func KeepAlive(interface{}) {}
func GC()                   {}

const GOOS, GOARCH = real.GOOS, real.GOARCH
