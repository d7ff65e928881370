//go:build !verifsweep

package conc

import "github.com/zijiren233/gencontainer/synccache"

const canSweep = false

func sweep(*synccache.SyncCache[int, int]) {}
