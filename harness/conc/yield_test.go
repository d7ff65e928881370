package conc

import "verifharness/sched"

// yield marks the border between two operations of a thread.
func yield() {
	if schedBuild {
		sched.Yield()
	}
}
