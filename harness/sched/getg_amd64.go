package sched

// Supported tells whether goroutines can be told apart on this platform.
const Supported = true

func getg() uintptr
