package harness

import (
	"strconv"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// c11next: when everything is ended, Receive gives at most that many more messages, then the end, again and again.
func c11next(r *syslog.Receiver, most int) (n int) {
	for {
		_, err, more := r.Receive()
		if !more {
			break
		}
		sym.Assert(err == nil, "an error comes with a good message")
		n++
		sym.Assert(n <= most, "messages come without end after the end")
	}
	_, _, more := r.Receive()
	sym.Assert(!more, "messages come after the end was reported")
	return n
}

// C11_any: End at any time, with connections, receivers and messages.
func C11_any() {
	n, t := someTransport()
	queue := sym.Split(sym.Int("queue", 0, 1))
	receivers := sym.Split(sym.Int("receivers", 0, 2))
	messages := sym.Split(sym.Int("messages", 0, 2))
	stays := bit("stays open")
	sym.Preempt(sym.Bound("preemptions", 2, 3))
	var conns []*wire
	stream := ""
	for i := 0; i < messages; i++ {
		stream += refEncode(n, small(strconv.Itoa(i)))
	}
	w := cutAt(stream)
	if stays {
		w.open = make(chan struct{})
	}
	conns = append(conns, w)
	d := newDoor(conns...)
	r, _ := syslog.NewReceiver(d, queue, t)
	done := make(chan int)
	for i := 0; i < receivers; i++ {
		go func() {
			k := 0
			for {
				m, err, more := r.Receive()
				if !more {
					break
				}
				sym.Assert(err == nil && m.String() == small(m.Text()), "something else is delivered")
				k++
			}
			done <- k
		}()
	}
	r.End()
	total := 0
	for i := 0; i < receivers; i++ {
		total += <-done
	}
	sym.Wait()
	sym.Assert(d.closes == 1, "the listener is not closed once")
	total += c11next(r, queue)
	sym.Assert(total <= messages, "more messages are delivered than were sent")
	if !stays && d.accepted == 1 {
		sym.Assert(w.closes == 1, "a connection that ended is not closed")
	}
	sym.Reach("ended")
}

// C11_delivered: what had been delivered before End is received after it, in order, then the end.
func C11_delivered() {
	n, t := someTransport()
	messages := sym.Split(sym.Int("messages", 0, 4))
	queue := sym.Split(sym.Int("queue", 0, 3))
	taken := sym.Split(sym.Int("taken before", 0, 4))
	sym.Assume(taken <= messages)
	sym.Preempt(1)
	stream := ""
	for i := 0; i < messages; i++ {
		stream += refEncode(n, small("m"+strconv.Itoa(i)))
	}
	w := cutAt(stream)
	r, _ := syslog.NewReceiver(newDoor(w), queue, t)
	next := 0
	for ; next < taken; next++ {
		m, err, more := r.Receive()
		sym.Assert(more && err == nil && m.String() == small("m"+strconv.Itoa(next)), "another message is delivered")
	}
	sym.Wait()
	r.End()
	sym.Wait()
	want := messages - taken
	if want > queue {
		want = queue
	}
	for i := 0; i < want; i++ {
		m, err, more := r.Receive()
		sym.Assert(more, "the end is reported before a message that was delivered before")
		sym.Assert(err == nil && m.String() == small("m"+strconv.Itoa(next)), "another message is delivered")
		next++
	}
	_, _, more := r.Receive()
	sym.Assert(!more, "a message comes that had not been delivered before the end")
	sym.Assert(w.closes == 1, "the connection is not closed")
	sym.Reach("ended")
}

// late is a connection whose data arrives when the harness says so.
type late struct {
	wire
	gate chan struct{}
}

func (l *late) Read(p []byte) (int, error) {
	<-l.gate
	return l.wire.Read(p)
}

type lateDoor struct {
	*door
	c    *late
	used bool
}

func (d *lateDoor) Accept() (syslog.DataReader, error) {
	if !d.used {
		d.used = true
		return d.c, nil
	}
	return d.door.Accept()
}

// C11_late: data, the end of the stream, or an error that arrives when the receiver is being ended.
func C11_late() {
	sym.Preempt(sym.Bound("preemptions", 2, 3))
	n, t := someTransport()
	c := &late{wire: *cutAt(refEncode(n, small("late")) + refEncode(n, small("later"))), gate: make(chan struct{})}
	switch sym.Split(sym.Int("what", 0, 2)) {
	case 1:
		c.pieces = nil
	case 2:
		c.pieces = []piece{{"", errRead}}
	}
	d := &lateDoor{door: newDoor(), c: c}
	r, _ := syslog.NewReceiver(d, sym.Split(sym.Int("queue", 0, 1)), t)
	after := bit("after")
	if !after {
		go func() { close(c.gate) }()
	}
	go func() {
		r.Receive()
	}()
	sym.Yield()
	r.End()
	if after {
		close(c.gate)
	}
	sym.Wait()
	c11next(r, 2)
	sym.Assert(d.closes == 1, "the listener is not closed once")
	if d.used {
		sym.Assert(c.closes == 1, "the connection is not closed")
	}
	sym.Reach("ended")
}

// C11_refused: a listener whose accept fails again and again while the receiver ends.
func C11_refused() {
	sym.Preempt(sym.Bound("preemptions", 2, 3))
	d := newDoor(nil, nil, nil)
	r, c := syslog.NewReceiver(d, 0, syslog.TransportLFEnded)
	go func() {
		for {
			select {
			case <-c:
			case <-d.end:
				return
			}
		}
	}()
	done := make(chan bool)
	go func() {
		_, _, more := r.Receive()
		done <- more
	}()
	r.End()
	sym.Assert(!<-done, "a message comes from nowhere")
	sym.Wait()
	sym.Assert(d.closes == 1, "the listener is not closed once")
	sym.Reach("ended")
}

// C11_none: without a transport there is no receiver.
func C11_none() {
	r, c := syslog.NewReceiver(newDoor(), sym.Split(sym.Int("queue", 0, 1))-1, nil)
	sym.Assert(r == nil && c == nil, "a receiver without transport")
	sym.Reach("none")
}
