//go:build verifsweep

package conc

import "github.com/zijiren233/gencontainer/synccache"

const canSweep = true

func sweep(c *synccache.SyncCache[int, int]) { synccache.VerifTrim(c) }
