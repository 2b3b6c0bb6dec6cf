// Package c19 checks that topics deliver to every live subscriber and count truthfully, under every schedule.
package c19

import (
	"sync"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/zzverif/sym"
)

type inbox struct {
	mu  sync.Mutex
	got []int
}

func (b *inbox) loop(r concurrency.Receiver) {
	for {
		e, err := r.Receive()
		if err != nil {
			return
		}
		b.mu.Lock()
		b.got = append(b.got, e.Data().(int))
		b.mu.Unlock()
	}
}

func (b *inbox) count(v int) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, g := range b.got {
		if g == v {
			n++
		}
	}
	return n
}

func publish(t concurrency.Topic, v int) int {
	n, err := t.Publish(concurrency.NewEvent("t", v, nil)).Get()
	sym.Assert(err == nil, "publishing gives an error")
	c, ok := n.(int)
	sym.Assert(ok, "publishing does not give a count")
	return c
}

func subscribe(t concurrency.Topic, name string, kind int) concurrency.Receiver {
	switch kind {
	case 0:
		return t.Subscribe(name)
	case 1:
		return t.SubscribeWithOptions(name, 2, 10*time.Millisecond)
	}
	return t.SubscribeWithOptions(name, 0, time.Hour)
}

// Publishing to subscribers that may be slow.
//
//verif:harness id=C19.count quick=50 thorough=300 explore race delay=2,4 demote=2,3
//verif:bounds two subscribers (default, buffered or patient), each receiving; two events published one after the other; deliveries may expire at any point; schedules with at most 2 (quick) / 4 (thorough) delays
//verif:reach dropped all
func Count() {
	t := concurrency.NewTopic("t")
	var in [2]inbox
	for i := range in {
		i := i
		r := subscribe(t, []string{"a", "b"}[i], sym.Choice("kind", 3))
		go in[i].loop(r)
	}
	var n [2]int
	for v := range n {
		n[v] = publish(t, v)
	}
	sym.Quiesce()
	for v := range n {
		got := 0
		for i := range in {
			c := in[i].count(v)
			sym.Assert(c <= 1, "a subscriber got an event twice")
			got += c
		}
		sym.Assert(n[v] == got, "the count is not the number of subscribers that got the event")
		if got < 2 {
			sym.Reach("dropped")
		} else {
			sym.Reach("all")
		}
	}
}

// Every subscriber that is ready gets the event.
//
//verif:harness id=C19.ready quick=50 thorough=300 explore race delay=2,4 demote=2,3
//verif:bounds one to three patient or buffered subscribers, two concurrent publishers of one event each; schedules with at most 2 (quick) / 4 (thorough) delays
func Ready() {
	t := concurrency.NewTopic("t")
	k := 1 + sym.Choice("n", 3)
	in := make([]inbox, k)
	for i := range in {
		i := i
		r := t.SubscribeWithOptions([]string{"a", "b", "c"}[i], 2*sym.Choice("buffered", 2), time.Hour)
		go in[i].loop(r)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		sym.Assert(publish(t, 1) == k, "the count is not the number of subscribers")
		wg.Done()
	}()
	sym.Assert(publish(t, 0) == k, "the count is not the number of subscribers")
	wg.Wait()
	sym.Quiesce()
	for i := range in {
		sym.Assert(in[i].count(0) == 1 && in[i].count(1) == 1, "a ready subscriber did not get an event exactly once")
	}
}

// Closed subscribers are forgotten, others are not.
//
//verif:harness id=C19.closed quick=50 thorough=300 explore race delay=3,5 demote=3,4
//verif:bounds two closed subscribers (closed before or during the first publish) and one live patient subscriber, three publishes; schedules with at most 3 (quick) / 5 (thorough) delays
func ClosedSubscribers() {
	t := concurrency.NewTopic("t")
	var in inbox
	go in.loop(t.SubscribeWithOptions("live", 0, time.Hour))
	a := t.Subscribe("a")
	b := t.Subscribe("b")
	a.Close()
	if sym.Choice("concurrent", 2) == 1 {
		go b.Close()
	} else {
		b.Close()
	}
	for v := 0; v < 3; v++ {
		sym.Assert(publish(t, v) == 1, "the count is not the number of subscribers that got the event")
	}
	sym.Quiesce()
	for v := 0; v < 3; v++ {
		sym.Assert(in.count(v) == 1, "a live subscriber did not get an event exactly once")
	}
}

// A name that is subscribed again while its closed receiver is being forgotten.
//
//verif:harness id=C19.resubscribe quick=50 thorough=300 explore race delay=3,5 demote=3,4
//verif:bounds a closed subscriber, a publish, a new subscription under the same name (before, during or after that publish), then a publish that the new subscriber must get; schedules with at most 3 (quick) / 5 (thorough) delays
func Resubscribe() {
	t := concurrency.NewTopic("t")
	t.Subscribe("a").Close()
	t.SubscribeWithOptions("other", 4, time.Hour)
	var in inbox
	f := t.Publish(concurrency.NewEvent("t", 0, nil))
	if sym.Choice("wait", 2) == 1 {
		_, _ = f.Get()
	}
	r := t.SubscribeWithOptions("a", 4, time.Hour)
	go in.loop(r)
	_, _ = f.Get()
	if sym.Choice("quiet", 2) == 1 {
		sym.Quiesce()
	}
	sym.Assert(publish(t, 1) == 2, "a subscriber that subscribed again was forgotten")
	sym.Assert(publish(t, 2) == 2, "a subscriber that subscribed again was forgotten")
	sym.Quiesce()
	sym.Assert(in.count(1) == 1 && in.count(2) == 1, "a subscriber that subscribed again did not get an event")
}

// A subscriber that was too slow once is not forgotten.
//
//verif:harness id=C19.slow quick=40 thorough=200 explore race delay=2,4 demote=3,4
//verif:bounds a default subscriber that is not receiving during the first publish and receives from then on, and a patient one; schedules with at most 2 (quick) / 4 (thorough) delays
func Slow() {
	t := concurrency.NewTopic("t")
	var slow, fast inbox
	r := t.SubscribeWithOptions("slow", 0, 20*time.Millisecond)
	go fast.loop(t.SubscribeWithOptions("fast", 1, time.Hour))
	sym.Assert(publish(t, 0) == 1, "an event nobody took was counted")
	go slow.loop(r)
	sym.Quiesce()
	n := publish(t, 1)
	sym.Quiesce()
	sym.Assert(slow.count(0) == 0, "an expired event was delivered")
	sym.Assert(n == slow.count(1)+fast.count(1), "the count is not the number of subscribers that got the event")
	m := 0
	for v := 2; v < 6 && m < 2; v++ {
		m = publish(t, v)
	}
	sym.Assert(m == 2, "a live subscriber was forgotten")
}

// Removing a topic tells every live subscriber.
//
//verif:harness id=C19.remove quick=40 thorough=200 explore race delay=2,4 demote=3,4
//verif:bounds two patient subscribers and optionally a closed one, Remove; schedules with at most 2 (quick) / 4 (thorough) delays
func Remove() {
	t := concurrency.NewTopic("t")
	var mu sync.Mutex
	told := 0
	for _, n := range []string{"a", "b"} {
		r := t.SubscribeWithOptions(n, sym.Choice("size", 2), time.Hour)
		go func() {
			e, err := r.Receive()
			sym.Assert(err == nil && e != nil, "no event")
			sym.Assert(e.Error() == concurrency.ErrTopicRemoved && e.Topic() == "t", "the event does not tell that the topic was removed")
			mu.Lock()
			told++
			mu.Unlock()
		}()
	}
	if sym.Choice("closed", 2) == 1 {
		t.Subscribe("c").Close()
	}
	t.Remove()
	sym.Quiesce()
	mu.Lock()
	sym.Assert(told == 2, "a subscriber was not told that the topic was removed")
	mu.Unlock()
}

// Many subscribers and many events.
//
//verif:harness id=C19.many quick=40 thorough=200
//verif:bounds 5, 9, 17, 33 or 65 patient or buffered subscribers, one in four closed after the third of nine events; one schedule
func Many() {
	t := concurrency.NewTopic("t")
	n := []int{5, 9, 17, 33, 65}[sym.Choice("n", 5)]
	buffer := 2 * sym.Choice("buffer", 2)
	in := make([]inbox, n)
	rs := make([]concurrency.Receiver, n)
	for i := range in {
		i := i
		rs[i] = t.SubscribeWithOptions("s"+string([]byte{byte('0' + i/10), byte('0' + i%10)}), buffer, time.Hour)
		go in[i].loop(rs[i])
	}
	live := n
	for v := 0; v < 9; v++ {
		if v == 3 {
			for i := 0; i < n; i += 4 {
				rs[i].Close()
				live--
			}
			sym.Quiesce()
		}
		sym.Assert(publish(t, v) == live, "the count is not the number of subscribers")
	}
	sym.Quiesce()
	for i := range in {
		for v := 0; v < 9; v++ {
			want := 1
			if i%4 == 0 && v >= 3 {
				want = 0
			}
			sym.Assert(in[i].count(v) == want, "a subscriber did not get the events that were published while it was open exactly once")
		}
	}
}

// Subscribers of any names.
//
//verif:harness id=C19.names quick=30 thorough=150
//verif:bounds a topic of any name of 0..2 bytes with three patient subscribers of any different names of 0..2 arbitrary bytes, two events published; then one subscriber closes, or another one subscribes under its name, and two more events are published; one schedule
func Names() {
	t := concurrency.NewTopic(sym.String("topic", sym.Choice("topiclen", 3)))
	var names []string
	in := make([]inbox, 4)
	var recv []concurrency.Receiver
	for i := 0; i < 3; i++ {
		i := i
		n := sym.String("name", sym.Choice("len", 3))
		for _, o := range names {
			sym.Assume(o != n)
		}
		names = append(names, n)
		r := t.SubscribeWithOptions(n, 0, time.Hour)
		recv = append(recv, r)
		go in[i].loop(r)
	}
	for v := 0; v < 2; v++ {
		sym.Assert(publish(t, v) == 3, "the count is not the number of subscribers")
	}
	who := sym.Choice("who", 3)
	recv[who].Close()
	again := sym.Choice("again", 2) == 1
	if again {
		go in[3].loop(t.SubscribeWithOptions(names[who], 0, time.Hour))
	}
	sym.Quiesce()
	for v := 2; v < 4; v++ {
		c := publish(t, v)
		sym.Assert(c == 2 && !again || c == 3 && again, "the count is not the number of subscribers that got the event")
		sym.Quiesce()
	}
	for i := range in {
		for v := 0; v < 4; v++ {
			want := 1
			if i == who && v >= 2 || i == 3 && (v < 2 || !again) {
				want = 0
			}
			sym.Assert(in[i].count(v) == want, "a subscriber did not get an event exactly once")
		}
	}
}

// A subscriber that takes nothing does not keep others from their events.
//
//verif:harness id=C19.idle quick=30 thorough=100
//verif:bounds six ready subscribers and one or two, subscribed at any place among them, that take nothing for an hour (or until closed, after which nobody waits for them); one or two events published without waiting; one schedule
func Idle() {
	t := concurrency.NewTopic("t")
	at := sym.Choice("at", 7)
	two := sym.Choice("two", 2) == 1
	var in [6]inbox
	var slow []concurrency.Receiver
	for i := 0; i <= 6; i++ {
		if i == at {
			slow = append(slow, t.SubscribeWithOptions("slow", 0, time.Hour))
			if two {
				slow = append(slow, t.SubscribeWithOptions("idle", 0, time.Hour))
			}
		}
		if i < 6 {
			r := t.SubscribeWithOptions("ready"+string([]byte{byte('0' + i)}), 0, time.Minute)
			go in[i].loop(r)
		}
	}
	events := 1 + sym.Choice("events", 2)
	var futs []concurrency.Future
	for v := 0; v < events; v++ {
		futs = append(futs, t.Publish(concurrency.NewEvent("t", v, nil)))
	}
	time.Sleep(50 * time.Millisecond)
	for i := range in {
		for v := 0; v < events; v++ {
			sym.Assert(in[i].count(v) == 1, "a ready subscriber waits for one that takes nothing")
		}
	}
	for _, s := range slow {
		s.Close()
	}
	for _, f := range futs {
		n, err := f.Get()
		sym.Assert(err == nil && n == 6, "the count is not the number of subscribers that got the event")
	}
}
