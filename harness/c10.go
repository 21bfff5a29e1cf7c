package harness

import (
	"errors"
	"io"
	"strconv"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var errRead = errors.New("read fails")

// ended makes a connection end in one of four ways, and tells if that is a failure.
func ended(w *wire, how int) bool {
	last := &w.pieces[len(w.pieces)-1]
	switch how {
	case 0:
		return false
	case 1:
		last.err = io.EOF
		return false
	case 2:
		last.err = errRead
		return true
	}
	w.pieces = append(w.pieces, piece{"", errRead})
	return true
}

// frames10 cuts a stream into the frames that end in it; rest is what follows, and bad a header that is wrong.
// It decides what the structure of the stream is.
func frames10(transport int, stream string) (frames []string, rest string, bad bool) {
	if transport < 2 {
		end := []byte{0, '\n'}[transport]
		last := 0
		for i := 0; i < len(stream); i++ {
			if is(stream[i] == end) {
				frames = append(frames, stream[last:i])
				last = i + 1
			}
		}
		return frames, stream[last:], false
	}
	for i := 0; i < len(stream); {
		n, k := 0, i
		for k < len(stream) && k < i+19 && is('0' <= stream[k] && stream[k] <= '9') {
			d := 9 // or anything else that is too much
			for v := 0; v < 6; v++ {
				if is(stream[k] == byte('0'+v)) {
					d = v
					break
				}
			}
			n = 10*n + d
			k++
		}
		if k == len(stream) {
			return frames, stream[i:], false
		}
		if k == i || !is(stream[k] == ' ') {
			for k < len(stream) && !is(stream[k] == ' ') {
				k++
			}
			return frames, stream[i:], true
		}
		k++
		if n > len(stream)-k {
			return frames, stream[i:], false
		}
		frames = append(frames, stream[k:k+n])
		i = k + n
	}
	return frames, "", false
}

// c10check: the well-formed frames are delivered in order, and every malformed one is reported with an error.
func c10check(all []got, frames []string) {
	pos := 0
	for _, f := range frames {
		_, _, err := syslog.Parse([]byte(f), nil, true)
		if f == "" && (pos == len(all) || all[pos].err == nil) {
			continue // nothing needs to be said about an empty frame
		}
		sym.Assert(pos < len(all), "a frame is neither delivered nor reported")
		if err != nil {
			sym.Assert(all[pos].err != nil, "a malformed message is reported without an error")
		} else {
			sym.Assert(all[pos].err == nil && all[pos].m.String() == f, "a well-formed message among others is not delivered as it is")
		}
		pos++
	}
	for _, g := range all[pos:] {
		sym.Assert(g.err != nil, "something that was not sent as a message is delivered")
	}
}

// C10_zero: any bytes on a connection, however it ends; another connection is served.
func C10_zero() { c10bytes(0, syslog.TransportZeroEnded) }

// C10_lf is the same with lines.
func C10_lf() { c10bytes(1, syslog.TransportLFEnded) }

// C10_counted is the same with counted frames.
func C10_counted() { c10bytes(2, syslog.TransportRFC5425) }

func c10bytes(n int, t syslog.Transport) {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	how := sym.Split(sym.Int("end", 0, 3))
	stream := upTo("stream", sym.Bound("bytes", 3, 5))
	frames, rest, bad := frames10(n, stream)
	w := cutAt(stream)
	fails := ended(w, how)
	other := small("other")
	all, errs := received(newDoor(w, cutAt(refEncode(n, other))), t, 0)
	var first []got
	served := false
	for _, g := range all {
		if g.err == nil {
			sym.Assert(g.m.String() == other && !served, "something that was not sent as a message is delivered")
			served = true
			continue
		}
		first = append(first, g)
	}
	sym.Assert(served, "the next connection is not served")
	for _, f := range frames {
		if f != "" {
			sym.Assert(len(first) > 0, "a malformed message is not reported")
			first = first[1:]
		}
	}
	sym.Assert(!bad || len(first) > 0, "a wrong header is not reported")
	_ = rest
	sym.Assert(w.closes == 1, "the connection is not closed")
	if fails && !bad {
		sym.Assert(len(errs) == 1 && errs[0] == errRead, "a read error is not reported")
	}
	sym.Reach("served")
}

// C10_between: a frame with anything in it between two good ones.
func C10_between() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	var odd string
	size := sym.Bound("odd bytes", 3, 4)
	switch sym.Split(sym.Int("start", 0, 4)) {
	case 0:
		odd = upTo("odd", size)
	case 1:
		odd = "<9>1 - h - - " + upTo("odd", size)
	case 2:
		odd = "<9>1 - h - - m " + upTo("odd", size)
	case 3:
		odd = "<9>1 - h - - m [x" + upTo("odd", size)
	case 4:
		odd = "<" + upTo("odd", size) + " - h - - m - text"
	}
	noEnd(n, odd)
	frames := []string{small("one"), odd, small("two")}
	refParse(nil, odd, true)
	stream := ""
	for _, f := range frames {
		stream += refEncode(n, f)
	}
	cut := sym.Split(sym.Int("cut", 0, 3))
	at := []int{0, 19, 23, len(stream) - 20}[cut]
	all, errs := received(newDoor(cutAt(stream, at)), t, 1)
	sym.Assert(len(errs) == 0, "an error of the connection is reported")
	c10check(all, frames)
	sym.Reach("checked")
}

// C10_failing: a read error after any number of bytes.
func C10_failing() {
	sym.Preempt(sym.Bound("preemptions", 1, 2))
	n, t := someTransport()
	frames := []string{small("one"), small(""), small("three")}
	stream := ""
	var ends []int
	for _, f := range frames {
		stream += refEncode(n, f)
		ends = append(ends, len(stream))
	}
	at := sym.Int("failure", 0, 80)
	sym.Assume(at <= len(stream))
	at = sym.Split(at)
	w := cutAt(stream[:at])
	if bit("with data") {
		w.pieces[0].err = errRead
	} else {
		w.pieces = append(w.pieces, piece{"", errRead})
	}
	other := small("other")
	d := newDoor(w, cutAt(refEncode(n, other)))
	all, errs := received(d, t, 0)
	sym.Assert(len(errs) == 1 && errs[0] == errRead, "a read error is not reported once")
	sym.Assert(w.closes == 1, "the connection is not closed")
	k := 0
	served := false
	for _, g := range all {
		sym.Assert(g.err == nil, "a message that was not sent is reported")
		if g.m.String() == other && !served {
			served = true
			continue
		}
		sym.Assert(k < 3 && g.m.String() == frames[k] && ends[k] <= at, "a message that did not arrive is delivered")
		k++
	}
	sym.Assert(served, "the next connection is not served")
	sym.Assert(k == 3 || ends[k] > at, "a message that had arrived before the error is lost")
	sym.Reach("checked")
}

// C10_accept: every pattern of failing accepts.
func C10_accept() {
	n, t := someTransport()
	var conns []*wire
	failing, good := 0, 0
	for i := 0; i < sym.Bound("accepts", 4, 6); i++ {
		if bit("failing " + strconv.Itoa(i)) {
			conns = append(conns, nil)
			failing++
			continue
		}
		conns = append(conns, cutAt(refEncode(n, small(strconv.Itoa(good)))))
		good++
	}
	sym.Preempt(1)
	d := newDoor(conns...)
	all, errs := received(d, t, 0)
	sym.Assert(len(errs) == failing, "not every failing accept is reported once")
	for _, err := range errs {
		sym.Assert(err == errAccept, "another error than that of the listener is reported")
	}
	sym.Assert(len(all) == good, "a connection after a failing accept is not served")
	sym.Reach("checked")
}

// C10_unread: many failing accepts while nobody reads the errors.
func C10_unread() {
	var conns []*wire
	for i := 0; i < 13; i++ {
		conns = append(conns, nil)
	}
	conns = append(conns, cutAt(refEncode(0, small("x"))))
	sym.Preempt(0)
	all, errs := received(newDoor(conns...), syslog.TransportZeroEnded, 0)
	sym.Assert(len(errs) > 0, "no failing accept is reported")
	sym.Assert(len(all) == 1 && all[0].m.String() == small("x"), "the connection after failing accepts is not served")
	sym.Reach("checked")
}
