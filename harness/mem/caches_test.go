package mem

import (
	"context"
	"errors"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/synccache"
)

const endless = 100000 * time.Hour

type scSubject struct {
	window
	c    *synccache.SyncCache[int, *payload]
	life time.Duration
	gone int
}

func newSC(life time.Duration, callback, started bool) func() subject {
	return func() subject {
		s := &scSubject{life: life}
		if callback {
			s.c = synccache.NewSyncCache[int, *payload](0, synccache.WithDeletedCallback[int, *payload](func(*payload) { s.gone++ }))
		} else {
			s.c = synccache.NewSyncCache[int, *payload](0)
		}
		if !started {
			s.c.Close()
		}
		return s
	}
}

func (s *scSubject) end() { s.c.Close() }

func (s *scSubject) expire(k int) {
	if e, ok := s.c.Load(k); ok {
		e.SetExpiration(time.Now().Add(-time.Minute))
	}
}

func (s *scSubject) op(o Op) {
	switch o.K {
	case "store":
		s.c.Store(s.fresh(), newPayload(1), s.life)
	case "los":
		s.c.LoadOrStore(s.fresh(), newPayload(1), s.life)
	case "again":
		if k := s.some(o.A); k != 0 {
			s.c.Store(k, newPayload(2), s.life)
		}
	case "losExpired":
		if k := s.some(o.A); k != 0 {
			s.expire(k)
			s.c.LoadOrStore(k, newPayload(2), s.life)
		}
	case "load":
		s.c.Load(s.some(o.A))
	case "miss":
		s.c.Load(-1 - o.A)
	case "range":
		n := 0
		s.c.Range(func(int, *synccache.Entry[*payload]) bool { n++; return n <= o.A })
	case "extend":
		if e, ok := s.c.Load(s.some(o.A)); ok {
			e.AddExpiration(time.Millisecond)
		}
	}
}

func (s *scSubject) remove(how string) {
	switch how {
	case "del":
		s.c.Delete(s.oldest())
	case "lad":
		s.c.LoadAndDelete(s.newest())
	case "cad":
		k := s.oldest()
		if e, ok := s.c.Load(k); ok {
			s.c.CompareAndDelete(k, e)
		}
	case "cvad":
		k := s.newest()
		if e, ok := s.c.Load(k); ok {
			s.c.CompareValueAndDelete(k, e.Value())
		}
	case "clear":
		s.c.Clear()
		s.clear()
	case "expireLoad":
		k := s.oldest()
		s.expire(k)
		s.c.Load(k)
	case "expireRange":
		s.expire(s.newest())
		s.c.Range(func(int, *synccache.Entry[*payload]) bool { return true })
	case "sweep":
		s.expire(s.oldest())
		time.Sleep(5001 * time.Millisecond)
		time.Sleep(5001 * time.Millisecond)
	case "pass": // everything expires and is swept
		time.Sleep(14 * time.Second)
		s.clear()
	}
}

// registry creates and closes caches.
type registry struct {
	caches []*synccache.SyncCache[int, *payload]
}

func (s *registry) live() int { return len(s.caches) }

func (s *registry) op(o Op) {
	switch o.K {
	case "new", "newExpiring":
		c := synccache.NewSyncCache[int, *payload](0)
		life := endless
		if o.K == "newExpiring" {
			life = time.Second
		}
		c.Store(1, newPayload(1), life)
		s.caches = append(s.caches, c)
	case "restart":
		if len(s.caches) > 0 {
			c := s.caches[o.A%len(s.caches)]
			c.Close()
			c.Start()
		}
	case "start":
		if len(s.caches) > 0 {
			s.caches[o.A%len(s.caches)].Start()
		}
	case "sleep":
		time.Sleep(time.Duration(o.A) * time.Second)
	}
}

func (s *registry) remove(how string) {
	c := s.caches[0]
	s.caches = append(s.caches[:0:0], s.caches[1:]...)
	switch how {
	case "close":
		c.Close()
	case "closeTwice":
		c.Close()
		c.Close()
	case "closeLate":
		time.Sleep(6 * time.Second)
		c.Close()
	}
}

// the registry may keep what it last saw until it is next changed
func (s *registry) settle() {
	for i := 0; i < 2; i++ {
		c := synccache.NewSyncCache[int, *payload](0)
		time.Sleep(11 * time.Second)
		c.Close()
	}
}

func (s *registry) end() {
	for _, c := range s.caches {
		c.Close()
	}
	s.caches = nil
	s.settle()
}

// refresher uses a refresh cache.
type refresher struct {
	n                   int
	get, refresh, reset func(ctx context.Context)
	fail                int // 1: error, 2: panic
	raw                 func()
}

var errRefresh = errors.New("refresh")

func (s *refresher) result() (*payload, error) {
	s.n++
	switch s.fail {
	case 1:
		return nil, errors.Join(errRefresh, errors.New("again"))
	case 2:
		panic(errRefresh)
	}
	return newPayload(s.n), nil
}

func (s *refresher) live() int { return s.n }

type ctxKey struct{}

func (s *refresher) op(o Op) {
	s.fail = 0
	ctx := context.WithValue(context.Background(), ctxKey{}, newPayload(9))
	defer func() { _ = recover() }()
	switch o.K {
	case "get":
		s.get(ctx)
	case "refresh":
		s.refresh(ctx)
	case "fail":
		s.fail = 1
		s.refresh(ctx)
	case "getFail":
		s.fail = 1
		s.get(ctx)
	case "panic":
		s.fail = 2
		s.refresh(ctx)
	case "sleep":
		time.Sleep(time.Duration(o.A) * 400 * time.Millisecond)
	case "raw":
		s.raw()
	}
}

func (s *refresher) remove(how string) {
	s.fail = 0
	switch how {
	case "clear":
		s.reset(context.Background())
	case "refresh":
		s.refresh(context.Background())
	}
	s.n = 0
}

func newRefresher(variant int) func() subject {
	return func() subject {
		s := &refresher{}
		switch variant {
		case 0:
			c := refreshcache0.NewRefreshCache(func(context.Context) (*payload, error) { return s.result() }, time.Second, refreshcache0.WithErrAge[*payload](time.Second))
			s.get = func(ctx context.Context) { c.Get(ctx) }
			s.refresh = func(ctx context.Context) { c.Refresh(ctx) }
			s.reset = func(ctx context.Context) { c.Clear(ctx) }
			s.raw = func() { c.Data().Raw() }
		case 1:
			c := refreshcache1.NewRefreshCache(func(_ context.Context, p *payload) (*payload, error) { return s.result() }, time.Second)
			s.get = func(ctx context.Context) { c.Get(ctx, newPayload(1)) }
			s.refresh = func(ctx context.Context) { c.Refresh(ctx, newPayload(1)) }
			s.reset = func(ctx context.Context) { c.Clear(ctx, newPayload(1)) }
			s.raw = func() { c.Data().Raw() }
		default:
			c := refreshcache.NewRefreshCache(func(_ context.Context, p ...*payload) (*payload, error) { return s.result() }, 0)
			s.get = func(ctx context.Context) { c.Get(ctx, newPayload(1), newPayload(2)) }
			s.refresh = func(ctx context.Context) { c.Refresh(ctx, newPayload(1)) }
			s.reset = func(ctx context.Context) { c.Clear(ctx) }
			s.raw = func() { c.Data().Raw() }
		}
		return s
	}
}

func cacheKinds() map[string]kind {
	ops := []string{"store", "store", "los", "again", "losExpired", "load", "miss", "range", "extend"}
	rm := []string{"del", "lad", "cad", "cvad", "clear", "expireLoad", "expireRange"}
	rops := []string{"get", "get", "refresh", "fail", "getFail", "panic", "sleep", "raw"}
	return map[string]kind{
		"synccache":          {ops, append(rm, "sweep"), newSC(endless, false, true)},
		"synccache callback": {ops, append(rm, "sweep"), newSC(endless, true, true)},
		"synccache closed":   {ops, rm, newSC(endless, true, false)},
		"synccache timed":    {[]string{"store", "store", "los", "again", "load", "miss"}, []string{"pass", "pass", "del", "expireLoad"}, newSC(3*time.Second, true, true)},
		"synccache registry": {[]string{"new", "new", "newExpiring", "restart", "start", "sleep"}, []string{"close", "closeTwice", "closeLate"}, func() subject { return &registry{} }},
		"refreshcache":       {rops, []string{"clear", "refresh"}, newRefresher(2)},
		"refreshcache0":      {rops, []string{"clear", "refresh"}, newRefresher(0)},
		"refreshcache1":      {rops, []string{"clear", "refresh"}, newRefresher(1)},
	}
}
