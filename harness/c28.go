package harness

import (
	"errors"
	"strconv"
	"time"

	"verif/harness/fakenet"
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// C28_ticks: rounds of messages, each followed by a flush tick.
func C28_ticks() {
	n, t := someTransport()
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	text := between(upTo("text", 2), 33, 126)
	var want []string
	for round := 0; round < sym.Bound("rounds", 3, 4); round++ {
		id := strconv.Itoa(round)
		bad := sym.Split(sym.Int("refused"+id, -1, 1))
		for i := 0; i < sym.Split(sym.Int("messages"+id, 0, 2)); i++ {
			m, enc := labelled(id + strconv.Itoa(i) + text)
			if i == bad {
				sym.Assert(s.Send(m.StructuredData(rawSD{err: errors.New("refused")})) != nil, "Send accepts a message that cannot be encoded")
				continue
			}
			sym.Assert(s.Send(m) == nil, "Send fails")
			want = append(want, refEncode(n, enc))
		}
		ticker <- stamp
		sym.Wait()
		sym.Assert(len(rec.writes) == len(want), "a flush does not write exactly what is queued")
		for i := range want {
			sym.Assert(rec.writes[i] == want[i], "a flush writes something else than what is queued")
		}
		sym.Assert(rec.closed == 0, "a flush closes the connection")
	}
	s.End()
	sym.Assert(len(rec.writes) == len(want), "End writes something twice")
	sym.Reach("flushed")
}

// C28_meanwhile: messages sent while flushes are under way are written by the next flush at the latest.
func C28_meanwhile() {
	n, t := someTransport()
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	stop, done := make(chan struct{}), make(chan struct{})
	count := sym.Bound("messages", 3, 4)
	var want []string
	var msgs []syslog.Message
	for i := 0; i < count; i++ {
		m, enc := labelled("m" + strconv.Itoa(i))
		msgs = append(msgs, m)
		want = append(want, refEncode(n, enc))
	}
	go ticks(ticker, 2, stop)
	go func() {
		for _, m := range msgs {
			s.Send(m)
		}
		close(done)
	}()
	<-done
	close(stop)
	ticker <- stamp
	sym.Wait()
	c12order(rec.writes, [][]string{want})
	s.End()
	sym.Assert(len(rec.writes) == count, "End writes something twice")
}

// C28_again: a flush after failed ones connects again and writes what is left.
func C28_again() {
	n, t := someTransport()
	_, first := labelled("m0")
	p := scripted(sym.Bound("outcomes", 3, 4), len(refEncode(n, first)))
	p.rest = 0
	ticker := make(chan time.Time)
	s, errs := syslog.NewSender(p, t, ticker)
	go func() {
		for range errs {
		}
	}()
	for i := 0; i < sym.Split(sym.Int("messages", 1, 3)); i++ {
		m, enc := labelled("m" + strconv.Itoa(i))
		p.frames = append(p.frames, refEncode(n, enc))
		sym.Assert(s.Send(m) == nil, "Send fails")
	}
	for i := 0; i < sym.Bound("outcomes", 3, 4)+1; i++ {
		before, next := p.attempts, p.next
		ticker <- stamp
		sym.Wait()
		sym.Assert(p.attempts > before || next == len(p.frames), "a flush tries nothing though messages are queued")
	}
	sym.Assert(p.next == len(p.frames), "flushes on a healthy connection do not write what is left")
	s.End()
	sym.Reach("flushed")
}

// C28_delay: a sender that was dialed flushes by itself after each delay, or never.
func C28_delay() {
	// what the fake network records is read between the flushes, in virtual time
	sym.NoRace()
	w := &fakenet.World{Answers: func(a *fakenet.Attempt) error { return nil }}
	fakenet.W = w
	text := between(upTo("text", 1), 33, 126)
	delays := []time.Duration{-time.Second, 0, time.Millisecond, time.Millisecond + 1, 20 * time.Millisecond, 500 * time.Millisecond, time.Hour}
	k := sym.Split(sym.Int("delay", 0, len(delays)))
	var s *syslog.Sender
	var errs <-chan error
	var err error
	delay := 500 * time.Millisecond
	if k == len(delays) {
		s, errs, err = syslog.Dial("unix", "/run/log")
	} else {
		delay = delays[k]
		s, errs, err = syslog.Dialer{FlushDelay: delay}.Dial("unix", "/run/log", nil)
	}
	sym.Assert(err == nil, "dialing fails")
	rounds := 2
	var want []string
	// how many messages are written, several may come in one piece
	written := func() int {
		all := ""
		for _, a := range w.Attempts {
			for _, o := range a.Conn.Out {
				all += o
			}
		}
		got := 0
		for ; len(all) > 0; got++ {
			sym.Assert(got < len(want) && len(all) >= len(want[got]) && all[:len(want[got])] == want[got], "something else than the messages is written")
			all = all[len(want[got]):]
		}
		return got
	}
	if delay > time.Millisecond {
		// between the ticks from here on
		time.Sleep(delay / 2)
	}
	for i := 0; i < rounds; i++ {
		m, enc := labelled(strconv.Itoa(i) + text)
		sym.Assert(s.Send(m) == nil, "Send fails")
		want = append(want, refEncode(0, enc))
		sym.Wait()
		if delay <= time.Millisecond {
			time.Sleep(time.Hour)
			sym.Wait()
			sym.Assert(written() == 0, "a sender without a delay flushes by itself")
			continue
		}
		sym.Assert(written() == i, "a message is written before the delay")
		time.Sleep(delay)
		sym.Wait()
		sym.Assert(written() == i+1, "a message is not written after the delay")
	}
	s.End()
	for err := range errs {
		sym.Assert(err == nil, "an error is reported with a peer that answers")
	}
	sym.Assert(written() == rounds, "a message is lost or sent twice")
	sym.Reach("ended")
}

// C28_many: any of many numbers of messages in one flush.
func C28_many() {
	n, t := someTransport()
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	m, enc := labelled("m")
	counts := []int{9, 17, 33, 65, 101, 129, 257, 513, 999, 1000, 1001, 1025, 1300}
	k := counts[sym.Split(sym.Int("messages", 0, len(counts)-1))]
	for round := 1; round < 3; round++ {
		for i := 0; i < k; i++ {
			sym.Assert(s.Send(m) == nil, "Send fails")
		}
		ticker <- stamp
		sym.Wait()
		sym.Assert(len(rec.writes) == round*k, "a flush does not write exactly what is queued")
	}
	for _, w := range rec.writes {
		sym.Assert(w == refEncode(n, enc), "a flush writes something else than what is queued")
	}
	s.End()
	sym.Assert(len(rec.writes) == 2*k, "End writes something twice")
	sym.Reach("flushed")
}
