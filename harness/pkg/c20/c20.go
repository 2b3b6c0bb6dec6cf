// Package c20 checks the event bus under every schedule.
package c20

import (
	"errors"
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

var errPayload = errors.New("payload")

// Sequential histories of topics.
//
//verif:harness id=C20.names quick=50 thorough=300 fresh
//verif:bounds every history of 4 (quick) / 6 (thorough) creations, removals, existence checks, publishes and subscriptions over names of 1 arbitrary byte
func Names() {
	b := concurrency.GetEventBus()
	var names []string
	has := func(n string) int {
		for i := range names {
			if names[i] == n {
				return i
			}
		}
		return -1
	}
	for i := 0; i < 4+2*sym.Tier(); i++ {
		n := sym.String("name", 1)
		at := has(n)
		switch sym.Choice("op", 6) {
		case 0:
			sym.Assert(b.NewTopic(n) == (at < 0), "creating a topic reports the wrong result")
			if at < 0 {
				names = append(names, n)
			}
		case 1:
			sym.Assert(b.RemoveTopic(n) == (at >= 0), "removing a topic reports the wrong result")
			if at >= 0 {
				names = append(names[:at:at], names[at+1:]...)
			}
		case 2:
			v, err := b.Publish(n, i, nil).Get()
			if at < 0 {
				sym.Assert(v == nil && err == concurrency.ErrNoSuchTopic, "publishing to an absent topic is not reported")
			} else {
				sym.Assert(err == nil && v == interface{}(0), "publishing to a topic without subscribers does not count zero")
			}
		case 3:
			r, err := b.Subscribe(n, "s")
			sym.Assert((r == nil) == (at < 0) && (err == concurrency.ErrNoSuchTopic) == (at < 0) && (err == nil) == (at >= 0), "subscribing reports the wrong result")
			if r != nil {
				r.Close()
				_, _ = b.Publish(n, i, nil).Get()
				sym.Quiesce()
			}
		case 4:
			r, err := b.SubscribeWithOptions(n, "s", 1, time.Hour)
			sym.Assert((r == nil) == (at < 0) && (err == concurrency.ErrNoSuchTopic) == (at < 0) && (err == nil) == (at >= 0), "subscribing reports the wrong result")
			if r != nil {
				r.Close()
				_, _ = b.Publish(n, i, nil).Get()
				sym.Quiesce()
			}
		default:
			v, err := b.PublishWithSource(n, "src", i, nil).Get()
			if at < 0 {
				sym.Assert(v == nil && err == concurrency.ErrNoSuchTopic, "publishing to an absent topic is not reported")
			} else {
				sym.Assert(err == nil && v == interface{}(0), "publishing to a topic without subscribers does not count zero")
			}
		}
		sym.Assert(b.ExistTopic(n) == (has(n) >= 0), "ExistTopic is wrong")
	}
	for _, n := range names {
		sym.Assert(b.ExistTopic(n), "a topic disappeared")
	}
}

// Events carry what was published and go to the subscribers of their topic only.
//
//verif:harness id=C20.route quick=50 thorough=300 fresh
//verif:bounds three topics with names of 1 arbitrary byte each (distinct), one patient subscriber each, one event published with or without a source (data any int, error or none, source of 0..2 arbitrary bytes) to any of them
func Route() {
	b := concurrency.GetEventBus()
	var topics []string
	var recv []concurrency.Receiver
	for i := 0; i < 3; i++ {
		n := sym.String("topic", 1)
		for _, o := range topics {
			sym.Assume(o != n)
		}
		topics = append(topics, n)
		sym.Assert(b.NewTopic(n), "creating a topic fails")
		r, err := b.SubscribeWithOptions(n, "s", 3, time.Hour)
		sym.Assert(err == nil, "subscribing fails")
		recv = append(recv, r)
	}
	to := sym.Choice("to", 3)
	data := sym.Int("data")
	var e error
	if sym.Choice("error", 2) == 1 {
		e = errPayload
	}
	source := "anonymous"
	var f concurrency.Future
	if sym.Choice("source", 2) == 1 {
		source = sym.String("src", sym.Choice("srclen", 3))
		f = b.PublishWithSource(topics[to], source, data, e)
	} else {
		f = b.Publish(topics[to], data, e)
	}
	v, err := f.Get()
	sym.Assert(err == nil && v == interface{}(1), "the event was not counted once")
	// a second event closes the stream of every topic
	for i := range topics {
		_, _ = b.Publish(topics[i], "end", nil).Get()
	}
	for i := range topics {
		ev, err := recv[i].Receive()
		sym.Assert(err == nil && ev != nil, "no event")
		if i == to {
			sym.Assert(ev.Topic() == topics[to], "the event carries another topic")
			sym.Assert(ev.Data() == interface{}(data), "the event carries other data")
			sym.Assert(ev.Error() == e, "the event carries another error")
			sym.Assert(ev.Source() == source, "the event carries another source")
			sym.Assert(ev.ID() != "", "the event has no id")
			ev, err = recv[i].Receive()
			sym.Assert(err == nil && ev != nil, "no event")
		}
		sym.Assert(ev.Data() == interface{}("end") && ev.Topic() == topics[i], "an event was delivered to another topic's subscriber")
	}
}

// Concurrent creation and removal.
//
//verif:harness id=C20.concurrent quick=50 thorough=300 explore race fresh
//verif:bounds three goroutines, each creating or removing the same topic (which exists or not at first), every schedule: as many removals as creations succeed, give or take what existed
//verif:reach created removed
func Concurrent() {
	b := concurrency.GetEventBus()
	balance := 0
	if sym.Choice("exists", 2) == 1 {
		b.NewTopic("t")
		balance++
	}
	ops := []int{sym.Choice("op0", 2), sym.Choice("op1", 2), sym.Choice("op2", 2)}
	start := balance
	var mu sync.Mutex
	var wg sync.WaitGroup
	creates, removes, created, removed := 0, 0, 0, 0
	do := func(op int) {
		ok := false
		if op == 0 {
			ok = b.NewTopic("t")
		} else {
			ok = b.RemoveTopic("t")
		}
		mu.Lock()
		defer mu.Unlock()
		if op == 0 {
			creates++
			if ok {
				created++
				sym.Reach("created")
			}
		} else {
			removes++
			if ok {
				removed++
				sym.Reach("removed")
			}
		}
	}
	for _, op := range ops[1:] {
		op := op
		wg.Add(1)
		go func() {
			do(op)
			wg.Done()
		}()
	}
	do(ops[0])
	wg.Wait()
	end := start + created - removed
	sym.Assert(end == 0 || end == 1, "creations and removals do not balance")
	sym.Assert(b.ExistTopic("t") == (end == 1), "the final state is not explained by the successful operations")
	if removes == 0 {
		sym.Assert(created == 1-start, "of several concurrent creations not exactly one succeeded")
	}
	if creates == 0 {
		sym.Assert(removed == start, "of several concurrent removals not exactly one succeeded")
	}
}

// Publishing and subscribing while the topic is removed.
//
//verif:harness id=C20.removal quick=50 thorough=300 explore race delay=3,4 demote=3,4 fresh
//verif:bounds a topic with one patient subscriber; concurrently one publish and one removal; the subscriber gets the event exactly when the count says so, and learns of the removal; schedules with at most 3 (quick) / 4 (thorough) delays
//verif:reach published absent
func Removal() {
	b := concurrency.GetEventBus()
	b.NewTopic("t")
	r, err := b.SubscribeWithOptions("t", "s", 4, time.Hour)
	sym.Assert(err == nil, "subscribing fails")
	done := make(chan bool)
	n := 0
	go func() {
		v, err := b.Publish("t", 5, nil).Get()
		if err != nil {
			sym.Assert(err == concurrency.ErrNoSuchTopic && v == nil, "another error than an absent topic")
			sym.Reach("absent")
		} else {
			n = v.(int)
			sym.Reach("published")
		}
		done <- true
	}()
	sym.Assert(b.RemoveTopic("t"), "removing the topic fails")
	<-done
	sym.Assert(!b.ExistTopic("t"), "the topic still exists")
	_, err = b.Subscribe("t", "late")
	sym.Assert(err == concurrency.ErrNoSuchTopic, "subscribing to a removed topic is not reported")
	sym.Quiesce()
	got := 0
	for i := 0; i < n+1; i++ {
		e, err := r.Receive()
		sym.Assert(err == nil && e != nil, "no event")
		if e.Error() == concurrency.ErrTopicRemoved {
			got += 10
		} else {
			sym.Assert(e.Data() == interface{}(5), "a wrong event")
			got++
		}
	}
	sym.Assert(got == 10+n, "the subscriber did not get the event and the notice once each")
}

// Many topics.
//
//verif:harness id=C20.many quick=40 thorough=200 fresh
//verif:bounds 9, 33, 130 or 300 topics and one of an arbitrary 1-byte name, every third removed and every ninth created again; all names of topics and some that never were checked, and an event published to three topics with a subscriber
func Many() {
	b := concurrency.GetEventBus()
	n := []int{9, 33, 130, 300}[sym.Choice("n", 4)]
	name := func(i int) string {
		return "t" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
	}
	one := sym.String("name", 1)
	for i := 0; i < n; i++ {
		sym.Assert(b.NewTopic(name(i)), "creating a topic fails")
	}
	sym.Assert(b.NewTopic(one), "creating a topic fails")
	for i := 0; i < n; i += 3 {
		sym.Assert(b.RemoveTopic(name(i)), "removing a topic fails")
		sym.Assert(!b.RemoveTopic(name(i)), "an absent topic is removed")
	}
	for i := 0; i < n; i += 9 {
		sym.Assert(b.NewTopic(name(i)), "creating a topic fails")
	}
	for i := 0; i < n; i++ {
		want := i%3 != 0 || i%9 == 0
		sym.Assert(b.ExistTopic(name(i)) == want, "ExistTopic is wrong")
		sym.Assert(!b.ExistTopic("x"+name(i)), "ExistTopic is wrong")
	}
	sym.Assert(b.ExistTopic(one), "ExistTopic is wrong")
	for k, t := range []string{one, name(1), name(0)} {
		r, err := b.SubscribeWithOptions(t, "s", 1, time.Hour)
		sym.Assert(err == nil, "subscribing fails")
		v, err := b.Publish(t, k, nil).Get()
		sym.Assert(err == nil && v == interface{}(1), "the event was not counted once")
		e, err := r.Receive()
		sym.Assert(err == nil && e.Topic() == t && e.Data() == interface{}(k), "the subscriber does not get the event")
	}
}

// Any names, any data.
//
//verif:harness id=C20.any quick=30 thorough=150 fresh
//verif:bounds two topics with different names of 0..3 arbitrary bytes, one subscriber each, one event for one of them whose data is nil, any int, any string of 0..2 bytes, a pointer or an error, published with or without a source
func Any() {
	b := concurrency.GetEventBus()
	names := []string{sym.String("name0", sym.Choice("len0", 4)), sym.String("name1", sym.Choice("len1", 4))}
	sym.Assume(names[0] != names[1])
	var recv []concurrency.Receiver
	for _, n := range names {
		sym.Assert(b.NewTopic(n), "creating a topic fails")
		r, err := b.SubscribeWithOptions(n, n, 3, time.Hour)
		sym.Assert(err == nil, "subscribing fails")
		recv = append(recv, r)
	}
	to := sym.Choice("to", 2)
	var data interface{}
	switch sym.Choice("data", 5) {
	case 1:
		data = sym.Int("number")
	case 2:
		data = sym.String("text", sym.Choice("len", 3))
	case 3:
		data = &inner{n: sym.Int("number")}
	case 4:
		data = errPayload
	}
	source := "anonymous"
	var f concurrency.Future
	if sym.Choice("source", 2) == 1 {
		source = sym.String("src", sym.Choice("srclen", 2))
		f = b.PublishWithSource(names[to], source, data, nil)
	} else {
		f = b.Publish(names[to], data, nil)
	}
	v, err := f.Get()
	sym.Assert(err == nil && v == interface{}(1), "the event was not counted once")
	ev, err := recv[to].Receive()
	sym.Assert(err == nil && ev != nil, "no event")
	sym.Assert(ev.Topic() == names[to] && ev.Data() == data && ev.Error() == nil && ev.Source() == source, "the event is not the one published")
	sym.Assert(b.RemoveTopic(names[1-to]), "removing a topic fails")
	ev, err = recv[1-to].Receive()
	sym.Assert(err == nil && ev != nil && ev.Error() == concurrency.ErrTopicRemoved && ev.Topic() == names[1-to], "the subscriber of a removed topic is not told so")
	sym.Assert(!b.ExistTopic(names[1-to]) && b.ExistTopic(names[to]), "ExistTopic is wrong")
}

type inner struct{ n int }
