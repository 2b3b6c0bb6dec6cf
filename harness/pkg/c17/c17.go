// Package c17 checks futures under every schedule.
package c17

import (
	"errors"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

var errTask = errors.New("task failed")

const (
	pending = iota
	fulfilled
	cancelled
)

// outcome classifies what Get returned.
func outcome(v interface{}, err error, want int) int {
	if err == concurrency.ErrCancelled {
		sym.Assert(v == nil, "a cancelled future gives a result")
		return cancelled
	}
	sym.Assert(err == errTask, "Get does not give the task's error")
	n, ok := v.(int)
	sym.Assert(ok && n == want, "Get does not give the task's result")
	return fulfilled
}

func waited(err error) int {
	if err == concurrency.ErrCancelled {
		return cancelled
	}
	sym.Assert(err == nil, "Wait gives an error that is neither success nor cancellation")
	return fulfilled
}

type ctx struct {
	mu      sync.Mutex
	ends    []int // outcomes seen by waiters and cancellers
	success int   // cancels that succeeded
}

func (c *ctx) saw(o int) {
	c.mu.Lock()
	c.ends = append(c.ends, o)
	c.mu.Unlock()
}

func (c *ctx) cancel(f concurrency.Future) {
	err := f.Cancel()
	c.mu.Lock()
	defer c.mu.Unlock()
	switch err {
	case nil:
		c.success++
		c.ends = append(c.ends, cancelled)
	case concurrency.ErrCancelled:
		c.ends = append(c.ends, cancelled)
	case concurrency.ErrFulfilled:
		c.ends = append(c.ends, fulfilled)
	default:
		sym.Assert(false, "Cancel gives another error")
	}
}

// finish checks that everybody saw the same end and that it stays.
func (c *ctx) finish(f concurrency.Future, want int) {
	v, err := f.Get()
	end := outcome(v, err, want)
	sym.Assert(waited(f.Wait()) == end, "Wait and Get disagree")
	sym.Assert(waited(f.WaitFor(time.Hour)) == end, "WaitFor and Get disagree")
	c.mu.Lock()
	for _, o := range c.ends {
		sym.Assert(o == end, "two callers saw different outcomes")
	}
	if end == cancelled {
		sym.Reach("cancelled")
		sym.Assert(c.success == 1, "a cancelled future has not exactly one successful Cancel")
	} else {
		sym.Reach("fulfilled")
		sym.Assert(c.success == 0, "a Cancel succeeded on a fulfilled future")
	}
	c.mu.Unlock()
	e := f.Cancel()
	if end == cancelled {
		sym.Assert(e == concurrency.ErrCancelled, "a late Cancel does not report cancellation")
	} else {
		sym.Assert(e == concurrency.ErrFulfilled, "a late Cancel does not report fulfilment")
	}
	v, err = f.Get()
	sym.Assert(outcome(v, err, want) == end, "the outcome changed")
}

// Two Cancels against the completion of the task.
//
//verif:harness id=C17.cancel quick=40 thorough=300 explore race
//verif:bounds one future (task result any int), two concurrent Cancels, every schedule; afterwards Get, Wait, WaitFor, Cancel, Get
//verif:reach cancelled fulfilled
func Cancel() {
	want := sym.Int("result")
	c := &ctx{}
	f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) { return want, errTask }))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		c.cancel(f)
		wg.Done()
	}()
	c.cancel(f)
	wg.Wait()
	c.finish(f, want)
}

// Waiters of every kind against one Cancel and the completion.
//
//verif:harness id=C17.waiters quick=50 thorough=300 explore race delay=3,5 demote=3,4
//verif:bounds one future, one Cancel and two waiters (each Get, Wait or WaitFor) running concurrently with the task; schedules with at most 3 (quick) / 5 (thorough) delays against round-robin
//verif:reach cancelled fulfilled timeout
func Waiters() {
	want := sym.Int("result")
	kinds := []int{sym.Choice("kind0", 3), sym.Choice("kind1", 3)}
	c := &ctx{}
	f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) { return want, errTask }))
	var wg sync.WaitGroup
	for _, k := range kinds {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch k {
			case 0:
				v, err := f.Get()
				c.saw(outcome(v, err, want))
			case 1:
				c.saw(waited(f.Wait()))
			default:
				err := f.WaitFor(time.Millisecond)
				if err == concurrency.ErrTimeout {
					sym.Reach("timeout")
					return
				}
				c.saw(waited(err))
			}
		}()
	}
	c.cancel(f)
	wg.Wait()
	c.finish(f, want)
}

// A task that is still running when it is cancelled or waited for.
//
//verif:harness id=C17.running quick=40 thorough=200 explore race
//verif:bounds a task that finishes only when released; a waiter with a timeout before the release, an optional Cancel before the release, the release, every schedule
//verif:reach cancelled fulfilled
func Running() {
	want := sym.Int("result")
	cancel := sym.Choice("cancel", 2) == 1
	c := &ctx{}
	runs := 0
	release := make(chan bool)
	f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
		<-release
		runs++
		return want, errTask
	}))
	sym.Assert(f.WaitFor(time.Millisecond) == concurrency.ErrTimeout, "waiting for a running task does not time out")
	if cancel {
		sym.Assert(f.Cancel() == nil, "cancelling a running task fails")
		v, err := f.Get()
		sym.Assert(v == nil && err == concurrency.ErrCancelled, "Get does not report the cancellation")
		c.success = 1
	}
	release <- true
	sym.Quiesce()
	c.finish(f, want)
	sym.Assert(runs == 1, "the task did not run exactly once")
}

// Many waiters of one future, and many futures.
//
//verif:harness id=C17.many quick=40 thorough=300 explore delay=1,1 demote=1,1
//verif:bounds 4, 9 or 17 waiters of all kinds on one future whose task is released after all of them wait, or that is cancelled then, and as many futures of other tasks meanwhile; schedules with at most one delay or demotion
//verif:reach cancelled fulfilled
func Many() {
	n := []int{4, 9, 17}[sym.Choice("n", 3)]
	want := sym.Int("result")
	cancel := sym.Choice("cancel", 2) == 1
	c := &ctx{}
	release := make(chan bool)
	f := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
		<-release
		return want, errTask
	}))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch i % 3 {
			case 0:
				v, err := f.Get()
				c.saw(outcome(v, err, want))
			case 1:
				c.saw(waited(f.Wait()))
			default:
				err := f.WaitFor(time.Hour)
				if err != concurrency.ErrTimeout {
					c.saw(waited(err))
				}
			}
		}()
	}
	var others []concurrency.Future
	for i := 0; i < n; i++ {
		i := i
		others = append(others, concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) { return want + i, errTask })))
	}
	for i, o := range others {
		v, err := o.Get()
		sym.Assert(outcome(v, err, want+i) == fulfilled, "a future that nobody cancelled is cancelled")
	}
	sym.Quiesce()
	if cancel {
		c.cancel(f)
		sym.Quiesce()
		wg.Wait() // nobody waits for the task any more
		release <- true
	} else {
		release <- true
		wg.Wait()
	}
	c.finish(f, want)
}

// Tasks with every kind of result, made in every way.
//
//verif:harness id=C17.results quick=30 thorough=150 explore delay=3,5 demote=3,4
//verif:bounds a task made by NewTask, NewNoErrorTask or NewErrorTask, with a result that is nil, any int or any string of 0..2 bytes and an error that is nil, its own, or one of the package's own errors; one optional concurrent Cancel, two getters; schedules with at most 3 (quick) / 5 (thorough) delays
//verif:reach cancelled fulfilled
func Results() {
	var want interface{}
	switch sym.Choice("result", 3) {
	case 1:
		want = sym.Int("number")
	case 2:
		want = sym.String("text", sym.Choice("len", 3))
	}
	wantErr := []error{nil, errTask, concurrency.ErrTimeout, concurrency.ErrFulfilled}[sym.Choice("error", 4)]
	var task concurrency.Task
	switch sym.Choice("task", 3) {
	case 0:
		task = concurrency.NewTask(func() (interface{}, error) { return want, wantErr })
	case 1:
		wantErr = nil
		task = concurrency.NewNoErrorTask(func() interface{} { return want })
	default:
		want = nil
		task = concurrency.NewErrorTask(wantErr)
	}
	f := concurrency.NewFuture(task)
	var mu sync.Mutex
	gone := 0
	var wg sync.WaitGroup
	get := func() {
		v, err := f.Get()
		if err == concurrency.ErrCancelled {
			sym.Assert(v == nil, "a cancelled future gives a result")
			mu.Lock()
			gone++
			mu.Unlock()
			return
		}
		sym.Assert(v == want, "Get does not give the task's result")
		sym.Assert(err == wantErr, "Get does not give the task's error")
	}
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			get()
			wg.Done()
		}()
	}
	cancelled := false
	if sym.Choice("cancel", 2) == 1 {
		err := f.Cancel()
		sym.Assert(err == nil || err == concurrency.ErrFulfilled, "the only Cancel gives another error")
		cancelled = err == nil
	}
	wg.Wait()
	get()
	if cancelled {
		sym.Reach("cancelled")
		sym.Assert(gone == 3, "somebody got a result of a cancelled future")
	} else {
		sym.Reach("fulfilled")
		sym.Assert(gone == 0, "somebody saw a cancellation of a fulfilled future")
	}
}
