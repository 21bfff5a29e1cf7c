package harness

import (
	"errors"
	"strconv"
	"sync"
	"time"

	"verif/harness/fakenet"
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// refEncode is the frame of a message.
func refEncode(transport int, msg string) string {
	switch transport {
	case 0:
		return msg + "\x00"
	case 1:
		return msg + "\n"
	}
	return strconv.Itoa(len(msg)) + " " + msg
}

// someTransport is one of the transports.
func someTransport() (int, syslog.Transport) {
	n := sym.Split(sym.Int("transport", 0, 2))
	return n, []syslog.Transport{syslog.TransportZeroEnded, syslog.TransportLFEnded, syslog.TransportRFC5425}[n]
}

// labelled is a message with that text, and its encoding.
func labelled(text string) (syslog.Message, string) {
	m := syslog.CreateWholeMessage(syslog.LogUSER|syslog.LogERR, stamp, "h", "a", "p", "i", text)
	return m, refMsg(11, stampText, "h", "a", "p", "i", "-", text)
}

// always is a connector to one connection.
func always(c syslog.WriteCloser) syslog.Connector {
	return syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return c, nil })
}

// ticks gives up to n ticks, at any time, until stop is closed.
func ticks(c chan time.Time, n int, stop chan struct{}) {
	for i := 0; i < n; i++ {
		select {
		case c <- stamp:
		case <-stop:
			return
		}
	}
}

// c12order checks that writes are the frames of the messages of every sender, each in order, and nothing else.
func c12order(writes []string, want [][]string) {
	n := 0
	pos := make([]int, len(want))
	for _, w := range want {
		n += len(w)
	}
	sym.Assert(len(writes) == n, "not every message is written once, as one write")
	for _, w := range writes {
		found := false
		for i := range want {
			if pos[i] < len(want[i]) && want[i][pos[i]] == w {
				pos[i]++
				found = true
				break
			}
		}
		sym.Assert(found, "a write is not the frame of the next message of a sender")
	}
	sym.Reach("checked")
}

// c12run: senders that send some messages each, ticks, and End when all have been accepted.
func c12run(transport int, t syslog.Transport, senders, messages, nticks int) {
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	var wg sync.WaitGroup
	want := make([][]string, senders)
	stop := make(chan struct{})
	go ticks(ticker, nticks, stop)
	for i := 0; i < senders; i++ {
		var list []syslog.Message
		for k := 0; k < messages; k++ {
			m, text := labelled("s" + strconv.Itoa(i) + "m" + strconv.Itoa(k))
			list = append(list, m)
			want[i] = append(want[i], refEncode(transport, text))
		}
		wg.Add(1)
		go func() {
			for _, m := range list {
				if s.Send(m) != nil {
					sym.Fail("Send fails")
				}
			}
			wg.Done()
		}()
	}
	wg.Wait()
	s.End()
	close(stop)
	c12order(rec.writes, want)
}

// C12_senders: concurrent senders and ticks.
func C12_senders() {
	n, t := someTransport()
	c12run(n, t, 2, sym.Bound("messages of each sender", 3, 4), sym.Bound("ticks", 2, 3))
}

// C12_three: three concurrent senders.
func C12_three() {
	n, t := someTransport()
	c12run(n, t, 3, sym.Bound("messages of each sender", 2, 2), sym.Bound("ticks", 1, 2))
}

// C12_refused: a message that cannot be encoded is refused and nothing of it is sent.
func C12_refused() {
	n, t := someTransport()
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	stop := make(chan struct{})
	go ticks(ticker, 1, stop)
	bad := sym.Split(sym.Int("refused", 0, 2))
	var want []string
	for i := 0; i < 3; i++ {
		m, text := labelled("m" + strconv.Itoa(i))
		if i == bad {
			sym.Assert(s.Send(m.StructuredData(rawSD{err: errors.New("refused")})) != nil, "Send accepts a message that cannot be encoded")
			continue
		}
		sym.Assert(s.Send(m) == nil, "Send fails")
		want = append(want, refEncode(n, text))
	}
	s.End()
	close(stop)
	c12order(rec.writes, [][]string{want})
}

// C12_many: more messages than the queue has room for at first, with flushes in between.
func C12_many() {
	n, t := someTransport()
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	m, text := labelled("m")
	mark, marked := labelled("mark")
	first := []int{0, 1, 900, 999, 1000, 1001}[sym.Split(sym.Int("before the flush", 0, 5))]
	total := first + []int{0, 1, 99, 100, 101, 150}[sym.Split(sym.Int("after the flush", 0, 5))]
	for i := 0; i < first; i++ {
		s.Send(m)
	}
	ticker <- stamp
	sym.Wait()
	sym.Assert(len(rec.writes) == first, "a flush does not send what is queued")
	s.Send(mark)
	for i := first; i < total; i++ {
		s.Send(m)
		if i == first+100 {
			ticker <- stamp
			sym.Wait()
		}
	}
	s.End()
	sym.Assert(len(rec.writes) == total+1, "not every message is written once")
	for i, w := range rec.writes {
		if i == first {
			sym.Assert(w == refEncode(n, marked), "a message is not sent in its place")
		} else {
			sym.Assert(w == refEncode(n, text), "a message is not sent in its place")
		}
	}
	sym.Reach("checked")
}

// C12_channels: goroutines that log through channels of one logger.
func C12_channels() {
	n, t := someTransport()
	old := syslog.Now
	syslog.Now = func() time.Time { return stamp }
	rec := &recorder{}
	ticker := make(chan time.Time)
	s, _ := syslog.NewSender(always(rec), t, ticker)
	l, _ := syslog.New(s, syslog.LogUSER|syslog.LogNOTICE, "app")
	l.TestMode()
	var wg sync.WaitGroup
	want := make([][]string, 2)
	stop := make(chan struct{})
	go ticks(ticker, 1, stop)
	for i := 0; i < 2; i++ {
		sev := []syslog.Priority{syslog.LogERR, syslog.LogNOTICE}[i]
		for k := 0; k < 2; k++ {
			want[i] = append(want[i], refEncode(n, refMsg(8+int(sev), stampText, "localhost", "app", "1234", "-", "-", "m"+strconv.Itoa(k))))
		}
		wg.Add(1)
		go func() {
			c := l.Channel(sev)
			c.Log("m0")
			c.Write([]byte("m1"))
			wg.Done()
		}()
	}
	wg.Wait()
	s.End()
	close(stop)
	syslog.Now = old
	c12order(rec.writes, want)
}

// C12_dialed: messages that are flushed together, over every kind of connection that can be dialed.
func C12_dialed() {
	n, t := someTransport()
	sym.Preempt(1)
	network, address := "tcp", "h:1"
	w := answering()
	up := [2]string{}
	switch sym.Split(sym.Int("peer", 0, 5)) {
	case 0:
		network, address = "unix", "/run/s"
	case 1:
		network, address = "unixgram", "/run/s"
	case 2:
		network, address, up = "local", "/run/s", [2]string{"unix", "/run/s"}
	case 3:
		network, address, up = "local", "/run/s", [2]string{"unixgram", "/run/s"}
	case 4:
		all := locals("", "")
		network, address, up = "local", "", all[sym.Split(sym.Int("socket", 0, len(all)-1))]
	}
	w.Answers = func(a *fakenet.Attempt) error {
		if network == "local" && up != [2]string{a.Network, a.Address} {
			return fakenet.Refused
		}
		return nil
	}
	s, _, err := syslog.Dialer{}.Dial(network, address, t)
	sym.Assert(err == nil, "dialing fails")
	var want []string
	all := ""
	for i := 0; i < sym.Split(sym.Int("messages", 1, 3)); i++ {
		m, text := labelled("m" + strconv.Itoa(i))
		want = append(want, refEncode(n, text))
		all += want[i]
		sym.Assert(s.Send(m) == nil, "Send fails")
	}
	s.End()
	k := len(w.Attempts) - 1
	sym.Assert(k >= 0 && w.Attempts[k].OK, "there is no connection")
	e := w.Attempts[k].Conn
	got := ""
	for i, o := range e.Out {
		got += o
		if e.Network == "unixgram" {
			sym.Assert(i < len(want) && o == want[i], "a message is not sent as one datagram")
		}
	}
	sym.Assert(got == all, "not every message is sent once, in order")
	sym.Assert(e.Closed == 1, "the connection is not closed")
	sym.Reach("sent")
}
