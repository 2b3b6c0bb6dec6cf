// Package c22 checks pipelines and broadcasters.
package c22

import (
	"errors"
	"sync"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

var errStop = errors.New("handler failed")

// Pipelines of every small length with failures anywhere.
//
//verif:harness id=C22.pipeline quick=30 thorough=100
//verif:bounds pipelines of 0..6 (quick) / 0..9 (thorough) handlers, any set of them failing (arbitrary booleans), handlers returning a fresh, the given or no data map; run twice
func Pipeline() {
	n := sym.Choice("n", 7+3*sym.Tier())
	mode := sym.Choice("mode", 3)
	p := util.NewPipeline()
	maps := make([]types.DataMap, n+1)
	maps[0] = types.NewSimpleDataMap()
	fail := make([]bool, n)
	calls := 0
	for i := 0; i < n; i++ {
		i := i
		fail[i] = sym.Bool("fail")
		switch mode {
		case 0:
			maps[i+1] = types.NewSimpleDataMap()
		case 1:
			maps[i+1] = maps[i]
		}
		q := p.AddHandler(func(d types.DataMap) (types.DataMap, error) {
			sym.Assert(calls == i, "handlers run out of order, or more than once")
			sym.Assert(d == maps[i], "a handler does not get its predecessor's result")
			calls++
			if fail[i] {
				return maps[i+1], errStop
			}
			return maps[i+1], nil
		})
		sym.Assert(q == p, "AddHandler does not return the pipeline")
	}
	for round := 0; round < 2; round++ {
		calls = 0
		d, err := p.Run(maps[0])
		stop := n
		for i := n - 1; i >= 0; i-- {
			if fail[i] {
				stop = i
			}
		}
		if stop < n {
			sym.Assert(calls == stop+1, "the pipeline does not stop at the first error")
			sym.Assert(err == errStop, "the first error is not reported")
			sym.Assert(d == maps[stop+1], "the failing handler's result is not reported")
		} else {
			sym.Assert(calls == n, "not every handler ran")
			sym.Assert(err == nil, "an error without a failing handler")
			sym.Assert(d == maps[n], "the last handler's result is not reported")
		}
	}
}

// A broadcaster with several getters.
//
//verif:harness id=C22.broadcast quick=40 thorough=200 explore race
//verif:bounds two concurrent getters, one setter (message any int or nil), every schedule, then two later getters
//verif:reach early late
func Broadcast() {
	var msg interface{}
	if sym.Choice("nil", 2) == 0 {
		msg = sym.Int("message")
	}
	b := concurrency.NewBroadCaster()
	var mu sync.Mutex
	set := false
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := b.Get()
			mu.Lock()
			sym.Assert(set, "Get returned before the message was set")
			mu.Unlock()
			sym.Assert(v == msg, "Get gives another message than the one set")
		}()
	}
	mu.Lock()
	set = true
	mu.Unlock()
	b.Set(msg)
	sym.Assert(b.Get() == msg, "a later Get gives another message")
	wg.Wait()
	sym.Assert(b.Get() == msg, "a later Get gives another message")
	sym.Reach("early")
	sym.Reach("late")
}

// Get really blocks until Set.
//
//verif:harness id=C22.blocks quick=20 thorough=60 explore
//verif:bounds one getter, checked to be blocked before Set, every schedule
func Blocks() {
	b := concurrency.NewBroadCaster()
	var mu sync.Mutex
	got := 0
	go func() {
		v := b.Get()
		mu.Lock()
		got = v.(int)
		mu.Unlock()
	}()
	sym.Quiesce()
	mu.Lock()
	sym.Assert(got == 0, "Get returned before Set")
	mu.Unlock()
	b.Set(7)
	sym.Quiesce()
	mu.Lock()
	sym.Assert(got == 7, "Get did not return after Set")
	mu.Unlock()
}

// Long pipelines and many getters.
//
//verif:harness id=C22.many quick=30 thorough=100
//verif:bounds pipelines of 17, 65, 130 or 300 handlers, none or any of five of them failing; a broadcaster with as many getters (150 at most) that wait, any message; one schedule
func Many() {
	n := []int{17, 65, 130, 300}[sym.Choice("n", 4)]
	bad := []int{-1, 0, 8, n / 2, n - 2, n - 1}[sym.Choice("fail", 6)]
	p := util.NewPipeline()
	calls := 0
	for i := 0; i < n; i++ {
		i := i
		p.AddHandler(func(d types.DataMap) (types.DataMap, error) {
			sym.Assert(calls == i, "handlers run out of order, or more than once")
			calls++
			d.Set("last", i)
			if i == bad {
				return d, errStop
			}
			return d, nil
		})
	}
	in := types.NewSimpleDataMap()
	d, err := p.Run(in)
	sym.Assert(d == in, "the last handler's result is not reported")
	if bad >= 0 {
		sym.Assert(calls == bad+1 && err == errStop, "the pipeline does not stop at the first error")
	} else {
		sym.Assert(calls == n && err == nil, "not every handler ran")
	}
	msg := sym.Int("message")
	b := concurrency.NewBroadCaster()
	var mu sync.Mutex
	got := 0
	if n > 150 {
		n = 150
	}
	for i := 0; i < n; i++ {
		go func() {
			v := b.Get()
			sym.Assert(v == interface{}(msg), "Get gives another message than the one set")
			mu.Lock()
			got++
			mu.Unlock()
		}()
	}
	sym.Quiesce()
	sym.Assert(got == 0, "Get returned before the message was set")
	b.Set(msg)
	sym.Quiesce()
	sym.Assert(got == n, "Get did not return after Set")
	sym.Assert(b.Get() == interface{}(msg), "a later Get gives another message")
}

// Handlers added after a run take part in the next one.
//
//verif:harness id=C22.grow quick=20 thorough=60
//verif:bounds pipelines that grow by 0..3 handlers before each of three runs, at most one handler failing (any of them, in any of the runs)
func Grow() {
	p := util.NewPipeline()
	n, calls := 0, 0
	bad := sym.Choice("fail", 10) - 1
	when := 0
	if bad >= 0 {
		when = sym.Choice("when", 3)
	}
	for round := 0; round < 3; round++ {
		for k := sym.Choice("grow", 4); k > 0; k-- {
			i := n
			n++
			p.AddHandler(func(d types.DataMap) (types.DataMap, error) {
				sym.Assert(calls == i, "handlers run out of order, or more than once")
				calls++
				if i == bad && round == when {
					return nil, errStop
				}
				return d, nil
			})
		}
		in := types.NewSimpleDataMap()
		calls = 0
		d, err := p.Run(in)
		if round == when && bad >= 0 && bad < n {
			sym.Assert(calls == bad+1 && err == errStop && d == nil, "the pipeline does not stop at the first error")
		} else {
			sym.Assert(calls == n && err == nil && d == in, "not every handler ran")
		}
	}
}
