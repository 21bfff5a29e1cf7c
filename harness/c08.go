package harness

import (
	"bytes"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// strip removes one frame from a buffer the way the package does: the prefix, then the suffix unless the prefix
// already told where the frame ends. The frame is complete if and only if rest is not nil.
func strip(t syslog.Transport, buffer []byte, atEOF bool) (data, rest []byte, err error) {
	data, rest, err = t.PrefixStrip(buffer, atEOF)
	if err != nil || rest != nil || data == nil {
		return
	}
	return t.SuffixStrip(data, atEOF)
}

// noByte assumes that a byte is not in s.
func noByte(s string, c byte) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != c)
	}
}

func c08frame(t syslog.Transport, msg, cont string) {
	frame := t.Encode([]byte(msg))
	sym.ObsStr("frame", string(frame))
	sym.Assert(bytes.Contains(frame, []byte(msg)), "the frame does not contain the message")
	atEOF := sym.Bool("eof")
	data, rest, err := strip(t, append(frame[:len(frame):len(frame)], cont...), atEOF)
	sym.Assert(err == nil, "a complete frame is refused")
	sym.Assert(rest != nil, "a complete frame is not recognised")
	sym.Assert(string(data) == msg, "unframing gives another message")
	sym.Assert(string(rest) == cont, "unframing gives another remainder")
	sym.Reach("stripped")
}

// c08partial gives every proper prefix of a frame.
func c08partial(t syslog.Transport, msg string) {
	frame := t.Encode([]byte(msg))
	n := sym.Int("cut", 0, 110)
	sym.Assume(n < len(frame))
	n = sym.Split(n)
	atEOF := sym.Bool("eof")
	data, rest, err := strip(t, frame[:n:n], atEOF)
	sym.Assert(rest == nil, "part of a frame yields a complete message")
	if err == nil && !atEOF {
		sym.Assert(len(data) == 0 || string(data) == string(frame[:n]), "part of a frame yields other bytes")
	}
	if err != nil {
		sym.Assert(atEOF, "part of a frame is refused although the stream continues")
	}
	sym.Reach("partial")
}

func c08msg(n int) string { return sym.StringUpTo("msg", n) }

// C08_zero: zero terminated frames.
func C08_zero() {
	n := sym.Bound("message bytes", 8, 20)
	msg, cont := c08msg(n), sym.StringUpTo("cont", sym.Bound("continuation bytes", 4, 10))
	noByte(msg, 0)
	c08frame(syslog.TransportZeroEnded, msg, cont)
}

// C08_lf: line feed terminated frames.
func C08_lf() {
	n := sym.Bound("message bytes", 8, 20)
	msg, cont := c08msg(n), sym.StringUpTo("cont", sym.Bound("continuation bytes", 4, 10))
	noByte(msg, '\n')
	c08frame(syslog.TransportLFEnded, msg, cont)
}

// C08_count: counted frames, lengths with one and two digits.
func C08_count() {
	n := sym.Bound("message bytes", 12, 30)
	msg, cont := c08msg(n), sym.StringUpTo("cont", sym.Bound("continuation bytes", 4, 10))
	c08frame(syslog.TransportRFC5425, msg, cont)
}

// C08_countLong: counted frames around the places where the header grows.
func C08_countLong() {
	lens := []int{9, 10, 11, 15, 19, 20, 99, 100, 101, 999, 1000, 1001}
	n := lens[sym.Split(sym.Int("n", 0, len(lens)-1))]
	c08frame(syslog.TransportRFC5425, sym.String("msg", n), sym.StringUpTo("cont", 3))
}

// C08_partialZero and so on: truncated frames.
func C08_partialZero() {
	msg := c08msg(sym.Bound("message bytes", 6, 12))
	noByte(msg, 0)
	c08partial(syslog.TransportZeroEnded, msg)
}

func C08_partialLF() {
	msg := c08msg(sym.Bound("message bytes", 6, 12))
	noByte(msg, '\n')
	c08partial(syslog.TransportLFEnded, msg)
}

func C08_partialCount() {
	lens := []int{0, 1, 2, 5, 9, 10, 14, 15, 17, 18, 19, 25, 100}
	n := lens[sym.Split(sym.Int("n", 0, len(lens)-1))]
	c08partial(syslog.TransportRFC5425, sym.String("msg", n))
}

// decimalHeader is the count that a header announces; ok is false if it is not a plain decimal count.
func decimalHeader(s string) (n int, ok bool) {
	if len(s) == 0 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		if n < 1000000 {
			n = n*10 + int(s[i]-'0')
		}
	}
	return n, true
}

// C08_header: an arbitrary header text followed by a space and a long enough message.
func C08_header() {
	h := sym.String("header", sym.Split(sym.Int("n", 0, sym.Bound("header bytes", 4, 6))))
	for i := 0; i < len(h); i++ {
		sym.Assume(h[i] != ' ')
	}
	c08header(h)
}

// C08_headerHuge: counts that do not fit in an int, or only together with the header.
func C08_headerHuge() {
	huge := []string{"9223372036854775807", "9223372036854775806", "9223372036854775808", "9223372036854775787",
		"18446744073709551615", "18446744073709551616", "99999999999999999999", "-9223372036854775808", "-1", "-0", "+5", "-5",
		"5", "24", "024", "25", "0x5", "1_0", "5.0", "1e1", "\uff15"}
	c08header(huge[sym.Split(sym.Int("which", 0, len(huge)-1))])
}

func c08header(h string) {
	body := sym.String("body", 24)
	buffer := []byte(h + " " + body)
	atEOF := sym.Bool("eof")
	data, rest, err := syslog.TransportRFC5425.PrefixStrip(buffer, atEOF)
	n, ok := decimalHeader(h)
	if !ok {
		sym.Assert(err != nil, "a length header that is not a decimal count is accepted")
		sym.Reach("refused")
		return
	}
	if n <= len(body) {
		sym.Assert(err == nil && rest != nil, "a complete frame is not recognised")
		sym.Assert(string(data) == body[:n] && string(rest) == body[n:], "a counted frame is cut at the wrong place")
		sym.Reach("cut")
		return
	}
	sym.Assert(rest == nil, "part of a frame yields a complete message")
	sym.Assert(!atEOF || err != nil, "a truncated frame at the end of the stream is not reported")
	sym.Reach("short")
}

// C08_any: any buffer, with every transport: no panic, and nothing that is not in the buffer.
func C08_any() {
	b := []byte(sym.StringUpTo("buffer", sym.Bound("buffer bytes", 8, 22)))
	ts := []syslog.Transport{syslog.TransportZeroEnded, syslog.TransportLFEnded, syslog.TransportRFC5425}
	t := ts[sym.Split(sym.Int("transport", 0, 2))]
	atEOF := sym.Bool("eof")
	data, rest, _ := t.PrefixStrip(b, atEOF)
	sym.Assert(len(data)+len(rest) <= len(b), "stripping the prefix makes bytes up")
	data, rest, _ = t.SuffixStrip(b, atEOF)
	sym.Assert(len(data)+len(rest) <= len(b), "stripping the suffix makes bytes up")
	sym.Reach("stripped")
}
