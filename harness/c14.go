package harness

import (
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// c14run: some messages, some ticks, and End; nobody reads the errors before.
func c14run(p *faulty, n int, t syslog.Transport, sends, nticks int, settled bool) {
	ticker := make(chan time.Time)
	var msgs []syslog.Message
	for i := 0; i < sends; i++ {
		m, text := labelled("m" + strconv.Itoa(i))
		msgs = append(msgs, m)
		p.frames = append(p.frames, refEncode(n, text))
	}
	s, errs := syslog.NewSender(p, t, ticker)
	stop := make(chan struct{})
	if nticks > 0 {
		go ticks(ticker, nticks, stop)
	}
	for _, m := range msgs {
		s.Send(m)
	}
	healthy := false
	if settled {
		sym.Wait()
		p.script = nil
		p.attempts = 0
		healthy = p.rest == 0
	}
	s.End()
	sym.Assert(p.closed == p.conns, "an established connection is not closed when End returns")
	if healthy {
		sym.Assert(p.next == len(p.frames), "End does not flush what the connection accepts")
	}
	close(stop)
	for range errs {
	}
	sym.Assert(p.closed == p.conns, "a connection is made or closed after End")
	sym.Reach("ended")
}

// c14rest: afterwards everything works, or fails, or buffers are lacking.
func c14rest() int {
	return []int{0, 1, 4}[sym.Split(sym.Int("rest", 0, 2))]
}

func c14peer(n int, script int) *faulty {
	_, first := labelled("m0")
	p := scripted(script, len(refEncode(n, first)))
	p.rest = c14rest()
	return p
}

// C14_settled: every history of sends, flushes and failures before End.
func C14_settled() {
	n, t := someTransport()
	p := c14peer(n, sym.Bound("outcomes", 3, 5))
	c14run(p, n, t, sym.Split(sym.Int("messages", 0, 2)), sym.Split(sym.Int("ticks", 0, 3)), true)
}

// C14_during: failures while it ends, in any interleaving with ticks.
func C14_during() {
	n, t := someTransport()
	p := c14peer(n, sym.Bound("outcomes", 3, 4))
	c14run(p, n, t, sym.Split(sym.Int("messages", 0, 2)), sym.Split(sym.Int("ticks", 0, 2)), false)
}

// C14_progress: connections that fail again and again, each after it took a message: End goes on until all is sent.
func C14_progress() {
	n, t := someTransport()
	p := &faulty{}
	sends := sym.Bound("messages", 5, 7)
	first := sym.Split(sym.Int("taken at first", 0, 1))
	for i := 0; i < sends; i++ {
		id := strconv.Itoa(i)
		// connect, a message that is taken, one that is not taken as a whole
		kind := []int{1, 2}[sym.Split(sym.Int("failure"+id, 0, 1))]
		part := sym.Int("written"+id, 1, 40)
		p.script = append(p.script, 0, 0, kind)
		p.written = append(p.written, 0, 0, part)
		if i == 0 && first == 1 {
			p.script = []int{0, 0, 0, kind}
			p.written = []int{0, 0, 0, part}
		}
	}
	var msgs []syslog.Message
	for i := 0; i < sends; i++ {
		m, text := labelled("m" + strconv.Itoa(i))
		msgs = append(msgs, m)
		p.frames = append(p.frames, refEncode(n, text))
	}
	ticker := make(chan time.Time)
	s, errs := syslog.NewSender(p, t, ticker)
	for _, m := range msgs {
		s.Send(m)
	}
	if bit("flushed before") {
		ticker <- stamp
		sym.Wait()
	}
	s.End()
	sym.Assert(p.next == len(p.frames), "End gives up although every connection takes a message")
	sym.Assert(p.closed == p.conns, "an established connection is not closed when End returns")
	for range errs {
	}
	sym.Reach("ended")
}
