package storedrv

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	vs "github.com/fairDataSociety/FaVe/verifx/stack"
)

// clock numbers the calls and returns of a schedule in the order they happen.
var clock atomic.Int64

type par struct {
	Threads [][]json.RawMessage `json:"threads"`
	Jitter  int64               `json:"jitter"`
}

// parallel runs the requests of every thread in order, the threads concurrently.
func parallel(raw json.RawMessage, tg target, v *vs.Vectorizer, env *vs.Env) ([]M, error) {
	var p par
	if err := json.Unmarshal(raw, &p); err != nil {
		return nil, err
	}
	threads := make([][]event, len(p.Threads))
	for i, th := range p.Threads {
		for _, r := range th {
			e, err := decode(r)
			if err != nil {
				return nil, err
			}
			threads[i] = append(threads[i], e)
		}
	}
	var mu sync.Mutex
	rnd := rand.New(rand.NewSource(p.Jitter))
	env.Store.Jitter(func() {
		mu.Lock()
		x := rnd.Intn(1000)
		mu.Unlock()
		switch {
		case x < 60:
			time.Sleep(time.Duration(x*10) * time.Microsecond)
		case x < 400:
			runtime.Gosched()
		}
	})
	defer env.Store.Jitter(nil)
	var wg sync.WaitGroup
	out := make([][]M, len(threads))
	start := make(chan struct{})
	for i := range threads {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, e := range threads[i] {
				inv := clock.Add(1)
				ev := watch(e, tg, v)
				ev["inv"], ev["ret"], ev["thread"] = inv, clock.Add(1), i
				out[i] = append(out[i], ev)
				if hung.Load() {
					return
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	var all []M
	for _, evs := range out {
		all = append(all, evs...)
	}
	return all, nil
}
