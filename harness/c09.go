package harness

import (
	"errors"
	"io"
	"net"
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// piece is what a read gives at most, and the error that comes with its last byte.
type piece struct {
	data string
	err  error
}

// wire is a connection of which the reads are scripted; afterwards reads block until it is closed, if it stays open.
type wire struct {
	pieces []piece
	closes int
	open   chan struct{}
	hung   bool
}

func (w *wire) RemoteAddr() net.Addr { return nil }

func (w *wire) Close() error {
	w.closes++
	if w.closes == 1 && w.open != nil && !w.hung {
		close(w.open)
	}
	return nil
}

// hangUp is the other side ending a connection that stays open.
func (w *wire) hangUp() {
	w.hung = true
	close(w.open)
}

func (w *wire) Read(p []byte) (int, error) {
	if len(w.pieces) == 0 {
		if w.open != nil {
			<-w.open
		}
		return 0, io.EOF
	}
	x := &w.pieces[0]
	n := copy(p, x.data)
	x.data = x.data[n:]
	if len(x.data) > 0 {
		return n, nil
	}
	err := x.err
	w.pieces = w.pieces[1:]
	return n, err
}

var errClosed = errors.New("listener closed")

// door is a listener with scripted connections, a nil one is a failing accept.
type door struct {
	conns    []*wire
	accepted int
	end      chan struct{}
	closes   int
}

var errAccept = errors.New("accept fails")

func newDoor(conns ...*wire) *door { return &door{conns: conns, end: make(chan struct{})} }

func (d *door) Accept() (syslog.DataReader, error) {
	select {
	case <-d.end:
		return nil, errClosed
	default:
	}
	if d.accepted < len(d.conns) {
		d.accepted++
		c := d.conns[d.accepted-1]
		if c == nil {
			return nil, errAccept
		}
		return c, nil
	}
	<-d.end
	return nil, errClosed
}

func (d *door) Close() error {
	d.closes++
	if d.closes == 1 {
		close(d.end)
	}
	return nil
}

// got is what a receiver reported.
type got struct {
	m   syslog.MessageImmutable
	err error
}

// received starts a receiver, takes everything it reports until it waits, and ends it.
func received(d *door, t syslog.Transport, queue int) (all []got, errs []error) {
	r, c := syslog.NewReceiver(d, queue, t)
	stopped := make(chan bool)
	go func() {
		for {
			m, err, more := r.Receive()
			if !more {
				break
			}
			all = append(all, got{m, err})
		}
		stopped <- true
	}()
	time.Sleep(time.Second) // the receiver pauses after a failed accept
	sym.Wait()
	r.End()
	<-stopped
	for {
		select {
		case err := <-c:
			errs = append(errs, err)
		default:
			return
		}
	}
}

// cutAt is a stream in pieces; the last one comes with the end of the stream, or is followed by it.
func cutAt(stream string, cuts ...int) *wire {
	w := &wire{}
	last := 0
	for _, c := range cuts {
		w.pieces = append(w.pieces, piece{stream[last:c], nil})
		last = c
	}
	w.pieces = append(w.pieces, piece{stream[last:], nil})
	return w
}

// withEOF makes the last bytes come together with the end of the stream.
func withEOF(w *wire) *wire {
	w.pieces[len(w.pieces)-1].err = io.EOF
	return w
}

// small is a message with that text.
func small(text string) string {
	s := "<9>1 - h - - m -"
	if text != "" {
		s += " " + text
	}
	return s
}

// noEnd assumes that a text cannot end a frame.
func noEnd(transport int, s string) {
	switch transport {
	case 0:
		noByte(s, 0)
	case 1:
		noByte(s, '\n')
	}
}

// c09check: these are the messages, in that order, and nothing else.
func c09check(all []got, errs []error, want []string) {
	sym.Assert(len(errs) == 0, "an error is reported")
	for _, g := range all {
		sym.Assert(g.err == nil, "a well-formed message is reported with an error")
	}
	sym.Assert(len(all) == len(want), "not every message is delivered exactly once")
	for i, g := range all {
		sym.Assert(g.m.String() == want[i], "another message than the one sent is delivered")
	}
	sym.Reach("delivered")
}

// C09_cuts: two messages, every way to cut the stream in three reads.
func C09_cuts() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	text := upTo("text", sym.Bound("text bytes", 2, 3))
	noEnd(n, text)
	want := []string{small(text), small("")}
	stream := refEncode(n, want[0]) + refEncode(n, want[1])
	a := sym.Int("first cut", 0, 60)
	sym.Assume(a <= len(stream))
	a = sym.Split(a)
	b := sym.Int("second cut", 0, 60)
	sym.Assume(a <= b && b <= len(stream))
	b = sym.Split(b)
	w := cutAt(stream, a, b)
	if bit("end with data") {
		withEOF(w)
	}
	all, errs := received(newDoor(w), t, 0)
	c09check(all, errs, want)
	sym.Assert(w.closes == 1, "the connection is not closed once after its end")
}

// C09_each: messages that arrive in reads of the same size.
func C09_each() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	var want []string
	stream := ""
	for i := 0; i < 3; i++ {
		text := upTo("text"+strconv.Itoa(i), sym.Bound("text bytes", 1, 3))
		noEnd(n, text)
		want = append(want, small(text))
		stream += refEncode(n, want[i])
	}
	size := sym.Split(sym.Int("read size", 1, 40))
	var cuts []int
	for i := size; i < len(stream); i += size {
		cuts = append(cuts, i)
	}
	all, errs := received(newDoor(cutAt(stream, cuts...)), t, 1)
	c09check(all, errs, want)
}

// C09_content: well-formed messages with arbitrary fields, values and text.
func C09_content() {
	n, t := someTransport()
	m := sym.Bound("bytes per part", 2, 3)
	host := between(sym.String("host", m), 33, 126)
	sd := "-"
	switch sym.Split(sym.Int("elements", 0, 2)) {
	case 1:
		value := between(sym.String("value", m), 32, 126)
		noByte(value, '"')
		noByte(value, '\\')
		noByte(value, ']')
		sd = `[x@1 k="` + value + `"]`
	case 2:
		sd = `[x@1 k="\"\\\]" l=""][y]`
	}
	text := upTo("text", m)
	want := []string{refMsg(13, stampText, host, "a", "-", "m", sd, text), small("last")}
	noEnd(n, want[0])
	stream := refEncode(n, want[0]) + refEncode(n, want[1])
	cut := sym.Int("cut", 0, 110)
	sym.Assume(cut <= len(stream) && cut%sym.Bound("every nth cut", 5, 1) == 0)
	all, errs := received(newDoor(cutAt(stream, sym.Split(cut))), t, 2)
	c09check(all, errs, want)
}

// long is a text of that many bytes.
func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	return string(b)
}

// C09_large: messages that end near the end of the 64 KiB receive buffer, or are larger than it.
func C09_large() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	sizes := []int{64000, 64999, 65000, 65001, 65034, 65035, 65036, 65037, 65500, 65534, 65535, 65536, 65537, 66000, 70000, 131072, 140000}
	size := sizes[sym.Split(sym.Int("size", 0, len(sizes)-1))]
	text := sym.String("text", 1)
	noEnd(n, text)
	frame := len(refEncode(n, small(long(size-40))))
	want := []string{small(long(size - 40 + size - frame)), small(text), small("")}
	stream := refEncode(n, want[0]) + refEncode(n, want[1]) + refEncode(n, want[2])
	var w *wire
	switch sym.Split(sym.Int("reads", 0, 2)) {
	case 0:
		w = cutAt(stream)
	case 1:
		w = cutAt(stream, size-700, size+3)
	case 2:
		w = cutAt(stream, 30000, 60000, size)
	}
	all, errs := received(newDoor(w), t, 0)
	c09check(all, errs, want)
}

// C09_two: two connections at once, every schedule.
func C09_two() {
	sym.Preempt(sym.Bound("preemptions", 2, 3))
	n, t := someTransport()
	var want [2][]string
	var conns []*wire
	for i := range want {
		a, b := small("a"+strconv.Itoa(i)), small("b"+strconv.Itoa(i))
		want[i] = []string{a, b}
		stream := refEncode(n, a) + refEncode(n, b)
		conns = append(conns, cutAt(stream, 9+i*16))
	}
	all, errs := received(newDoor(conns...), t, sym.Split(sym.Int("queue", 0, 1)))
	sym.Assert(len(errs) == 0, "an error is reported")
	var pos [2]int
	for _, g := range all {
		sym.Assert(g.err == nil, "a well-formed message is reported with an error")
		s := g.m.String()
		of := int(s[len(s)-1] - '0')
		sym.Assert(of >= 0 && of < 2 && pos[of] < 2 && want[of][pos[of]] == s, "the messages of a connection are not delivered in order")
		pos[of]++
	}
	sym.Assert(pos[0] == 2 && pos[1] == 2, "a message is lost")
	sym.Reach("delivered")
}

// C09_unterminated: the end of the stream ends a zero terminated frame.
func C09_unterminated() {
	text := upTo("text", 2)
	noEnd(0, text)
	want := []string{small("first"), small(text)}
	stream := refEncode(0, want[0]) + want[1]
	cut := sym.Int("cut", 0, 60)
	sym.Assume(cut <= len(stream))
	w := cutAt(stream, sym.Split(cut))
	if bit("end with data") {
		withEOF(w)
	}
	all, errs := received(newDoor(w), syslog.TransportZeroEnded, 0)
	c09check(all, errs, want)
}

// C09_idle: connections that stay open: what arrived is delivered, and the others are served.
func C09_idle() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	var want [2][]string
	var conns []*wire
	for i := range want {
		k := strconv.Itoa(i)
		stream := ""
		for j := 0; j < sym.Split(sym.Int("messages "+k, 0, 2)); j++ {
			want[i] = append(want[i], small(string(rune('a'+j))+k))
			stream += refEncode(n, want[i][j])
		}
		if bit("part of another " + k) {
			stream += refEncode(n, small("part"))[:9]
		}
		w := cutAt(stream)
		w.open = make(chan struct{})
		conns = append(conns, w)
	}
	r, c := syslog.NewReceiver(newDoor(conns...), sym.Split(sym.Int("queue", 0, 1)), t)
	var pos [2]int
	over := false
	go func() {
		for {
			m, err, more := r.Receive()
			if !more {
				return
			}
			if over {
				continue
			}
			sym.Assert(err == nil, "a well-formed message is reported with an error")
			s := m.String()
			of := int(s[len(s)-1] - '0')
			sym.Assert(of >= 0 && of < 2 && pos[of] < len(want[of]) && want[of][pos[of]] == s, "another message than the next one of a connection is delivered")
			pos[of]++
		}
	}()
	sym.Wait()
	for i := range want {
		sym.Assert(pos[i] == len(want[i]), "what arrived on a connection that stays open is not delivered")
	}
	sym.Assert(len(c) == 0, "an error is reported")
	over = true
	for _, w := range conns {
		sym.Assert(w.closes == 0, "a connection is closed before its end")
		w.hangUp()
	}
	sym.Wait()
	r.End()
	sym.Wait()
	sym.Reach("idle")
}
