package pbt

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The case being executed is kept in a shared file mapping, so that the driver can
// read it even if the process dies (fatal errors of the Go runtime cannot be caught).
// A case that hangs, or that makes the heap explode, ends the process with status 7;
// the driver then runs that one case again in a fresh process before judging.

const curSize = 1 << 20

var (
	cur      []byte
	curSeq   atomic.Int64 // even: idle, odd: executing
	deadline = int64(60)  // seconds for one case
	cpuLimit = int64(0)   // seconds of processor time for one case (0: none)
)

var watchdogOnce sync.Once

// StartWatchdog must run outside a synctest bubble; Main calls it otherwise.
func StartWatchdog() { watchdogOnce.Do(startWatchdog) }

func startWatchdog() {
	deadline = int64(envInt("VP_CASE_TIMEOUT_S", 60))
	cpuLimit = int64(envInt("VP_CASE_CPU_S", 0))
	if path := os.Getenv("VP_CUR"); path != "" {
		f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil && f.Truncate(curSize) == nil {
			if m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				cur = m
			}
		}
	}
	go func() {
		samples := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		last, ticks, cpu := int64(-1), int64(0), int64(0)
		for {
			time.Sleep(250 * time.Millisecond)
			s := curSeq.Load()
			if s%2 == 1 && s == last {
				ticks++
				if ticks > deadline*4 || cpuLimit > 0 && cpuSeconds()-cpu > cpuLimit {
					fmt.Fprintln(os.Stderr, "VP-RUNAWAY: a case did not finish")
					os.Exit(7)
				}
			} else {
				last, ticks, cpu = s, 0, cpuSeconds()
			}
			metrics.Read(samples)
			if samples[0].Value.Uint64() > 2000<<20 {
				fmt.Fprintln(os.Stderr, "VP-RUNAWAY: a case exhausted memory")
				os.Exit(7)
			}
		}
	}()
}

func cpuSeconds() int64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return int64(u.Utime.Sec) + int64(u.Stime.Sec)
}

func setCurrent(name string, raw []byte) {
	curSeq.Add(1)
	if cur == nil || len(raw)+len(name)+16 > curSize {
		return
	}
	binary.LittleEndian.PutUint32(cur[0:], 0)
	n := 8
	copy(cur[n:], name)
	n += len(name)
	copy(cur[n:], raw)
	binary.LittleEndian.PutUint32(cur[4:], uint32(len(name)))
	binary.LittleEndian.PutUint32(cur[0:], uint32(len(raw))+1)
}

func clearCurrent() {
	curSeq.Add(1)
	if cur != nil {
		binary.LittleEndian.PutUint32(cur[0:], 0)
	}
}
