//go:build !amd64

package sched

const Supported = false

func getg() uintptr { return 0 }
