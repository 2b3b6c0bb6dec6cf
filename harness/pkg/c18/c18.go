// Package c18 checks data channels under every schedule.
package c18

import (
	"errors"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

var errEvent = errors.New("event failed")

func channel(size int) (concurrency.Receiver, concurrency.Sender) {
	if size < 0 {
		return concurrency.NewDataChannel()
	}
	return concurrency.NewDataChannelWithOption(size, 10*time.Millisecond)
}

type inbox struct {
	mu  sync.Mutex
	got []int
}

func (b *inbox) take(r concurrency.Receiver, n int) bool {
	for i := 0; i < n; i++ {
		e, err := r.Receive()
		if err != nil {
			sym.Assert(err == concurrency.ErrChannelClosed, "Receive gives another error than closed")
			sym.Assert(e == nil, "Receive gives an event and an error")
			return false
		}
		sym.Assert(e != nil, "Receive gives neither an event nor an error")
		b.mu.Lock()
		b.got = append(b.got, e.Data().(int))
		b.mu.Unlock()
	}
	return true
}

// match checks that got is exactly the accepted events of each sender, in each sender's order.
func match(got []int, status [][]int) {
	next := make([]int, len(status))
	for _, g := range got {
		s, i := g/10, g%10
		sym.Assert(status[s][i] != concurrency.Expired, "an event reported expired was received")
		sym.Assert(status[s][i] != concurrency.Closed, "an event reported closed was received")
		sym.Assert(i >= next[s], "an event was received twice or out of order")
		for next[s] < i {
			sym.Assert(status[s][next[s]] != concurrency.Success, "an accepted event was skipped")
			next[s]++
		}
		next[s] = i + 1
	}
	for s := range status {
		for i := next[s]; i < len(status[s]); i++ {
			sym.Assert(status[s][i] != concurrency.Success, "an accepted event was never received")
		}
	}
}

// Senders against a receiver that keeps receiving.
//
//verif:harness id=C18.deliver quick=50 thorough=400 explore race delay=3,5 demote=3,4
//verif:bounds an unbuffered, size-1 or size-2 channel, two concurrent senders of two events each, one receiver that receives until nothing can arrive; schedules with at most 3 (quick) / 5 (thorough) delays; sends may expire at any point
func Deliver() {
	r, s := channel([]int{-1, 0, 1, 2}[sym.Choice("size", 4)])
	var in inbox
	status := [][]int{{0, 0}, {0, 0}}
	var wg sync.WaitGroup
	for k := range status {
		k := k
		wg.Add(1)
		go func() {
			for i := range status[k] {
				status[k][i] = s.Send(concurrency.NewEvent("t", k*10+i, nil))
			}
			wg.Done()
		}()
	}
	go in.take(r, 1000)
	wg.Wait()
	sym.Quiesce()
	in.mu.Lock()
	match(in.got, status)
	in.mu.Unlock()
}

// One sender, one receiver that starts late: every schedule, including expiry of each send.
//
//verif:harness id=C18.expire quick=40 thorough=200 explore race
//verif:bounds an unbuffered or size-1 channel, one sender of two events, a receiver that takes everything, every schedule
//verif:reach expired delivered
func Expire() {
	r, s := channel([]int{-1, 1}[sym.Choice("size", 2)])
	var in inbox
	status := [][]int{{0, 0}}
	done := make(chan bool)
	go func() {
		for i := range status[0] {
			status[0][i] = s.Send(concurrency.NewEvent("t", i, nil))
			if status[0][i] == concurrency.Expired {
				sym.Reach("expired")
			}
		}
		done <- true
	}()
	go in.take(r, 1000)
	<-done
	sym.Quiesce()
	in.mu.Lock()
	if len(in.got) == 2 {
		sym.Reach("delivered")
	}
	match(in.got, status)
	in.mu.Unlock()
}

// Closing, also twice and concurrently, against sends; afterwards everything reports closed.
//
//verif:harness id=C18.close quick=50 thorough=400 explore race delay=3,6 demote=3,4
//verif:bounds an unbuffered, size-1 or size-2 channel; a sender of two events, a receiver of one event and two concurrent Close calls; then two more sends and receives; schedules with at most 3 (quick) / 6 (thorough) delays
//verif:reach closed
func Close() {
	r, s := channel([]int{-1, 1, 2}[sym.Choice("size", 3)])
	waiting := sym.Choice("waiting", 2) == 1
	var in inbox
	status := []int{-1, -1}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		for i := range status {
			status[i] = s.Send(concurrency.NewEvent("t", i, nil))
		}
		wg.Done()
	}()
	if waiting {
		go in.take(r, 1)
	}
	go func() {
		r.Close()
		wg.Done()
	}()
	r.Close()
	wg.Wait()
	for i := 0; i < 2; i++ {
		e, err := r.Receive()
		sym.Assert(e == nil && err == concurrency.ErrChannelClosed, "Receive on a closed channel does not report closed")
		sym.Assert(s.Send(concurrency.NewEvent("t", 5+i, nil)) == concurrency.Closed, "Send on a closed channel does not report closed")
	}
	r.Close()
	sym.Reach("closed")
	sym.Quiesce()
	in.mu.Lock()
	for k, g := range in.got {
		sym.Assert(g < 5, "an event sent after the channel was closed was received")
		sym.Assert(k == 0 && status[g] == concurrency.Success, "an event was received that was not accepted")
		if g == 1 {
			sym.Assert(status[0] != concurrency.Success, "an accepted event was skipped")
		}
	}
	in.mu.Unlock()
}

// The same on a channel closed by one caller only, every schedule.
//
//verif:harness id=C18.closed quick=40 thorough=200 explore
//verif:bounds an unbuffered or size-1 channel, one sender of two events and one Close, every schedule: sends that start after Close returned report closed
func Closed() {
	r, s := channel([]int{-1, 1}[sym.Choice("size", 2)])
	var mu sync.Mutex
	closed := false
	done := make(chan bool)
	go func() {
		for i := 0; i < 2; i++ {
			mu.Lock()
			before := closed
			mu.Unlock()
			st := s.Send(concurrency.NewEvent("t", i, nil))
			if before {
				sym.Assert(st == concurrency.Closed, "Send after Close does not report closed")
			}
		}
		done <- true
	}()
	r.Close()
	mu.Lock()
	closed = true
	mu.Unlock()
	<-done
}

// Larger buffers and many events.
//
//verif:harness id=C18.many quick=40 thorough=200
//verif:bounds buffers of 0, 5, 9, 17, 33, 65 or 130 events filled by one sender without a receiver, with one or three further sends that expire, drained by a receiver and filled again; then closed with 0 or 3 events in the buffer; one schedule
//verif:reach closed
func Many() {
	n := []int{0, 5, 9, 17, 33, 65, 130}[sym.Choice("size", 7)]
	r, s := channel(n)
	next := 0
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			sym.Assert(s.Send(concurrency.NewEvent("t", round*1000+i, nil)) == concurrency.Success, "an event that fits into the buffer is not accepted")
		}
		for i := 0; i < 1+2*sym.Choice("more", 2); i++ {
			sym.Assert(s.Send(concurrency.NewEvent("t", -1, nil)) == concurrency.Expired, "an event that does not fit into the buffer does not expire")
		}
		for i := 0; i < n; i++ {
			e, err := r.Receive()
			sym.Assert(err == nil && e.Data() == interface{}(round*1000+i), "an accepted event is lost or out of order")
			next++
		}
	}
	left := 0
	if n > 0 {
		left = 3 * sym.Choice("left", 2)
	}
	for i := 0; i < left; i++ {
		sym.Assert(s.Send(concurrency.NewEvent("t", i, nil)) == concurrency.Success, "an event that fits into the buffer is not accepted")
	}
	r.Close()
	for i := 0; i < 3; i++ {
		e, err := r.Receive()
		sym.Assert(e == nil && err == concurrency.ErrChannelClosed, "Receive on a closed channel does not report closed")
		sym.Assert(s.Send(concurrency.NewEvent("t", i, nil)) == concurrency.Closed, "Send on a closed channel does not report closed")
	}
	sym.Reach("closed")
}

// A receiver and many sends of several senders.
//
//verif:harness id=C18.stream quick=40 thorough=200
//verif:bounds an unbuffered channel or one of 1, 4 or 16 events, 1, 3 or 9 senders of 9 events each and a receiver that takes everything; one schedule
func Stream() {
	r, s := channel([]int{-1, 1, 4, 16}[sym.Choice("size", 4)])
	k := []int{1, 3, 9}[sym.Choice("senders", 3)]
	var in inbox
	status := make([][]int, k)
	var wg sync.WaitGroup
	for i := range status {
		i := i
		status[i] = make([]int, 9)
		wg.Add(1)
		go func() {
			for j := range status[i] {
				status[i][j] = s.Send(concurrency.NewEvent("t", i*10+j, nil))
			}
			wg.Done()
		}()
	}
	go in.take(r, 1000)
	wg.Wait()
	sym.Quiesce()
	in.mu.Lock()
	match(in.got, status)
	in.mu.Unlock()
}

// Channels with any size and time limit.
//
//verif:harness id=C18.options quick=30 thorough=150
//verif:bounds sizes of -3, 0, 1, 2 and 5, time limits of -1 s, 0, 1 ns, 10 ms and 1 h, events with no data or any int and an error or none; as many events as fit, a receiver, optionally one more event with a waiting receiver; one schedule
func Options() {
	size := []int{-3, 0, 1, 2, 5}[sym.Choice("size", 5)]
	var limit time.Duration
	switch sym.Choice("limit", 5) {
	case 0:
		limit = -time.Second
	case 2:
		limit = 1
	case 3:
		limit = concurrency.DefaultExpireTime
	case 4:
		limit = time.Hour
	}
	r, s := concurrency.NewDataChannelWithOption(size, limit)
	var data interface{}
	switch sym.Choice("data", 2) {
	case 1:
		data = sym.Int("number")
	}
	var e error
	if sym.Choice("error", 2) == 1 {
		e = errEvent
	}
	ev := concurrency.NewEvent("t", data, e)
	n := 0
	if size > 0 {
		n = size
	}
	for i := 0; i < n; i++ {
		sym.Assert(s.Send(ev) == concurrency.Success, "an event that fits into the buffer is not accepted")
	}
	for i := 0; i < n; i++ {
		g, err := r.Receive()
		sym.Assert(err == nil && g == ev && g.Data() == data && g.Error() == e, "another event was received than the accepted one")
	}
	if sym.Choice("waiting", 2) == 1 {
		done := make(chan bool)
		go func() {
			g, err := r.Receive()
			sym.Assert(err == nil && g == ev, "another event was received than the accepted one")
			done <- true
		}()
		sym.Quiesce()
		sym.Assert(s.Send(ev) == concurrency.Success, "an event for a waiting receiver is not accepted")
		<-done
	} else if limit <= concurrency.DefaultExpireTime {
		for i := 0; i < n; i++ {
			sym.Assert(s.Send(ev) == concurrency.Success, "an event that fits into the buffer is not accepted")
		}
		sym.Assert(s.Send(ev) == concurrency.Expired, "an event that does not fit into the buffer does not expire")
	}
	r.Close()
	sym.Assert(s.Send(ev) == concurrency.Closed, "Send on a closed channel does not report closed")
	g, err := r.Receive()
	sym.Assert(g == nil && err == concurrency.ErrChannelClosed, "Receive on a closed channel does not report closed")
}
