package clock

import (
	"testing"

	"verifharness/pbt"
)

func TestC29(t *testing.T) {
	bubble(t, func(t *testing.T) {
		pbt.Main(t, "C29", SyncCacheLifetime().Scaled(0.2), SyncCacheCallback().Scaled(0.2), SyncCacheSweep().Scaled(0.2), RefreshCacheAge().Scaled(0.2), RefreshCacheErrors().Scaled(0.2))
	})
}
