package harness

import (
	"errors"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// faulty is a peer whose connections fail as the inputs say.
type faulty struct {
	frames   []string // what has to be sent
	next     int      // the first message not completely written
	cut      bool     // a part of that message was written on the open connection
	open     *faultyConn
	conns    int
	closed   int
	attempts int     // operations on the peer
	script   []int   // the outcomes of the first operations
	written  []int   // what is written of a message when that fails
	rest     int     // the outcome of the others
	lacks    int     // how often buffers were lacking
	errs     []error // what has to be reported
}

type faultyConn struct {
	p      *faulty
	failed bool
	closed bool
}

// outcome of the next operation, 0 is success.
func (p *faulty) outcome() int {
	p.attempts++
	if p.attempts > len(p.script) {
		if p.attempts > len(p.script)+60 {
			sym.Fail("the sender keeps trying for ever")
		}
		return p.rest
	}
	return p.script[p.attempts-1]
}

// scripted is a peer whose first n operations have any outcome; frames have that length.
func scripted(n, length int) *faulty {
	p := &faulty{}
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		p.script = append(p.script, sym.Int("outcome"+id, 0, 5))
		sym.Assume(length > 40)
		p.written = append(p.written, sym.Int("written"+id, 1, 40))
	}
	return p
}

func (p *faulty) fail(err error) error {
	p.errs = append(p.errs, err)
	return err
}

func (p *faulty) Connect() (syslog.WriteCloser, error) {
	sym.Assert(p.open == nil || p.open.closed, "a connection is opened while another one is")
	if p.outcome() != 0 {
		return nil, p.fail(errors.New("connect"))
	}
	p.conns++
	p.cut = false
	p.open = &faultyConn{p: p}
	return p.open, nil
}

func (c *faultyConn) Write(d []byte) (int, error) {
	p := c.p
	sym.Assert(c == p.open && !c.closed && !c.failed, "a failed or closed connection is written to")
	sym.Assert(p.next < len(p.frames), "something else than the messages is written")
	frame := p.frames[p.next]
	sym.Assert(string(d) == frame, "a write is not the first message that was not completely written before")
	var err error
	n := len(d)
	switch p.outcome() {
	case 0:
		p.next++
		return n, nil
	case 1:
		n, err = 0, errors.New("write")
	case 2:
		sym.Assert(len(frame) == len(p.frames[0]), "frames differ in length")
		n = p.written[p.attempts-1]
		err = &net.OpError{Op: "write", Net: "unix", Err: os.NewSyscallError("write", syscall.EPIPE)}
	case 3:
		p.next++
		err = &net.OpError{Op: "write", Net: "unix", Err: errors.New("closed")}
	case 4:
		// not a failure of the connection
		p.lacks++
		return 0, &net.OpError{Op: "write", Net: "unixgram", Err: os.NewSyscallError("write", syscall.ENOBUFS)}
	case 5:
		n = 1
		err = &net.OpError{Op: "write", Net: "unix", Err: os.NewSyscallError("write", syscall.ENOBUFS)}
	}
	c.failed = true
	return n, p.fail(err)
}

func (c *faultyConn) Close() error {
	sym.Assert(!c.closed, "a connection is closed twice")
	c.closed = true
	c.p.closed++
	return nil
}

// c13drain checks that the failures so far, and nothing else, have been reported.
func c13drain(p *faulty, errs <-chan error) {
	for {
		select {
		case err, ok := <-errs:
			sym.Assert(ok, "the error channel is closed before End")
			sym.Assert(len(p.errs) > 0 && p.errs[0] == err, "the error reported is not the next failure")
			p.errs = p.errs[1:]
			sym.Wait()
			continue
		default:
		}
		break
	}
	sym.Assert(len(p.errs) == 0, "a failure is not reported")
}

// C13_rounds: messages are sent and flushed in rounds, connections and writes fail at any point.
func C13_rounds() {
	n, t := someTransport()
	_, first := labelled("m0")
	p := scripted(sym.Bound("outcomes", 4, 5), len(refEncode(n, first)))
	ticker := make(chan time.Time)
	s, errs := syslog.NewSender(p, t, ticker)
	// some messages before the first flush, one before each later one
	count := sym.Split(sym.Int("first", 0, 2))
	for round := 0; round < sym.Bound("rounds", 3, 4); round++ {
		for i := 0; i < count; i++ {
			m, text := labelled("m" + strconv.Itoa(len(p.frames)))
			p.frames = append(p.frames, refEncode(n, text))
			sym.Assert(s.Send(m) == nil, "Send fails")
		}
		count = 1
		ticker <- stamp
		sym.Wait()
		sym.Assert(p.open == nil || p.open.failed == p.open.closed, "a failed connection is left open, or a good one is closed")
		c13drain(p, errs)
	}
	// now everything works
	p.script = nil
	p.attempts = 0
	ticker <- stamp
	sym.Wait()
	c13drain(p, errs)
	sym.Assert(p.next == len(p.frames), "a message is lost or not sent after reconnecting")
	s.End()
	sym.Assert(p.next == len(p.frames) && p.closed == p.conns, "the last connection is not closed")
	sym.Reach("rounds")
}

// C13_senders: a sender, ticks, failures and a reader of the errors in any interleaving.
func C13_senders() {
	n, t := someTransport()
	_, first := labelled("m0")
	p := scripted(sym.Bound("outcomes", 2, 3), len(refEncode(n, first)))
	ticker := make(chan time.Time)
	var msgs []syslog.Message
	for i := 0; i < 2; i++ {
		m, text := labelled("m" + strconv.Itoa(i))
		msgs = append(msgs, m)
		p.frames = append(p.frames, refEncode(n, text))
	}
	s, errs := syslog.NewSender(p, t, ticker)
	stop, read := make(chan struct{}), make(chan struct{})
	var got []error
	go ticks(ticker, 2, stop)
	go func() {
		for err := range errs {
			got = append(got, err)
		}
		close(read)
	}()
	for _, m := range msgs {
		s.Send(m)
	}
	s.End()
	close(stop)
	<-read
	sym.Assert(p.closed == p.conns, "a connection is not closed")
	if len(p.errs)+p.lacks < 2 {
		// two failures while ending may leave something unsent
		sym.Assert(p.next == len(p.frames), "a message is lost")
	}
	sym.Assert(len(got) <= len(p.errs), "something else than the failures is reported")
	if len(p.errs) > 0 {
		sym.Assert(len(got) > 0 && got[0] == p.errs[0], "the first failure is not reported")
	}
	sym.Reach("ended")
}
