package harness

import (
	"errors"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// rawSD is a structured data element that encodes to given bytes.
type rawSD struct {
	text string
	err  error
}

func (r rawSD) SDID() sdata.SDID { return nil }

func (r rawSD) Marshal5424() ([]byte, error) {
	if r.err != nil {
		return nil, r.err
	}
	return []byte(r.text), nil
}

// spaceAtEnd is the number of bytes of the white space character at the end of s.
func spaceAtEnd(s string) int {
	n := len(s)
	if n == 0 {
		return 0
	}
	c := s[n-1]
	if c == ' ' || c >= 9 && c <= 13 {
		return 1
	}
	if n >= 2 && s[n-2] == 0xC2 && (c == 0x85 || c == 0xA0) {
		return 2
	}
	if n < 3 {
		return 0
	}
	a, b := s[n-3], s[n-2]
	switch {
	case a == 0xE1 && b == 0x9A && c == 0x80,
		a == 0xE2 && b == 0x80 && (c >= 0x80 && c <= 0x8A || c == 0xA8 || c == 0xA9 || c == 0xAF),
		a == 0xE2 && b == 0x81 && c == 0x9F,
		a == 0xE3 && b == 0x80 && c == 0x80:
		return 3
	}
	return 0
}

// refText is what a text must become.
func refText(s string) string {
	for n := sym.Split(spaceAtEnd(s)); n > 0; n = sym.Split(spaceAtEnd(s)) {
		s = s[:len(s)-n]
	}
	return s
}

// somePrio is a priority of each length.
func somePrio(name string) int {
	return []int{0, 9, 13, 99, 100, 191}[sym.Split(sym.Int(name, 0, 5))]
}

// C04_layout: all fields of a message at once.
func C04_layout() {
	n := sym.Bound("field bytes", 2, 4)
	prio := somePrio("prio")
	host, app, pid, msgid := upTo("host", n), sym.String("app", n), sym.String("pid", n), sym.String("msgid", n)
	text := sym.StringIn("text", n, 33, 126)
	nsd := sym.Split(sym.Int("elements", 0, 2))
	e1, e2 := sym.String("e1", n), sym.String("e2", n)
	m := syslog.CreateWholeMessage(syslog.Priority(prio), stamp, host, app, pid, msgid, text)
	sd := "-"
	switch nsd {
	case 1:
		m = m.StructuredData(rawSD{text: e1})
		sd = e1
	case 2:
		m = m.StructuredData(rawSD{text: e1}, rawSD{text: e2})
		sd = e1 + e2
	}
	want := refMsg(prio, stampText, refField(host, 255), refField(app, 48), refField(pid, 128), refField(msgid, 32), sd, text)
	sym.Assert(encoded(m) == want, "the encoding is not the RFC 5424 layout of the fields")
	sym.Assert(m.String() == want, "the string form is not the encoding")
	sym.Reach("encoded")
}

// C04_text: the text, through every function that takes one.
func C04_text() {
	how := sym.Split(sym.Int("how", 0, 2))
	n := sym.Bound("text bytes", 4, 5)
	if how > 0 {
		n--
	}
	text := upTo("text", n)
	want := refText(text)
	var m syslog.Message
	switch how {
	case 0:
		m = syslog.CreateWholeMessage(0, stamp, "h", "a", "p", "m", text)
	case 1:
		m = syslog.CreateMessage("a", 0, text).Time(stamp).Host("h").ProcID("p").MsgID("m")
	case 2:
		m = syslog.CreateWholeMessage(0, stamp, "h", "a", "p", "m", "old text").Msg(text)
	}
	got := encoded(m)
	sym.ObsStr("encoded", got)
	sym.Assert(got == refMsg(0, stampText, "h", "a", "p", "m", "-", want), "the text is not carried unchanged")
	sym.Reach("encoded")
}

// C04_textLong: a long text of which only the end and the start are arbitrary.
func C04_textLong() {
	start, end := sym.String("start", 2), upTo("end", 3)
	mid := ""
	for i := 0; i < sym.Bound("fixed text bytes", 2000, 9000); i++ {
		mid += string(rune('!' + i%90))
	}
	text := start + mid + end
	m := syslog.CreateWholeMessage(0, stamp, "h", "a", "p", "m", text)
	sym.Assert(encoded(m) == refMsg(0, stampText, "h", "a", "p", "m", "-", refText(text)), "a long text is not carried unchanged")
	sym.Reach("encoded")
}

// ascii2 is a string of two ASCII characters.
func ascii2(name string) string {
	v := sym.String(name, 2)
	sym.Assume(v[0] < 128 && v[1] < 128)
	return v
}

// C04_setters: every sequence of setters changes only the field that it sets.
func C04_setters() {
	steps := sym.Bound("setters applied", 3, 4)
	// priorities have three digits here: C01 and C04_layout cover the others
	prio, ts, host, app, pid, msgid, sd, text := 113, stampText, "h0", "a0", "p0", "m0", "", "t0"
	m := syslog.CreateWholeMessage(113, stamp, "h0", "a0", "p0", "m0", "t0")
	const now = 1000000000
	sym.SetNow(now)
	other := time.Unix(now, 123456789).UTC()
	names := []string{"v0", "v1", "v2", "v3"}
	for i := 0; i < steps; i++ {
		v := ascii2(names[i])
		switch sym.Split(sym.Int("setter"+names[i], 0, 8)) {
		case 0:
			prio = 100 + sym.Int("prio"+names[i], 0, 91)
			m = m.Priority(syslog.Priority(prio))
		case 1:
			ts = "2001-09-09T01:46:40.123456Z"
			switch sym.Split(sym.Int("time"+names[i], 0, 4)) {
			case 0:
				m = m.Time(other)
			case 1:
				m = m.Epoch("1000000000", "123456789")
			case 2:
				m = m.Delta(time.Unix(0, 0).UTC(), "1000000000", "123456789")
			case 3:
				m = m.Now()
			case 4:
				ts, m = "2001-09-09T01:46:40Z", m.Timestamp("Sep  9 01:46:40")
			}
		case 2:
			host, m = refField(v, 255), m.Host(v)
		case 3:
			app, m = refField(v, 48), m.AppName(v)
		case 4:
			pid, m = refField(v, 128), m.ProcID(v)
		case 5:
			msgid, m = refField(v, 32), m.MsgID(v)
		case 6:
			sd, m = sd+"["+v+"]", m.StructuredData(rawSD{text: "[" + v + "]"})
		case 7:
			sym.Assume(v[1] > 32)
			text, m = v, m.Msg(v+" ")
		case 8:
			host, m = "verif.example", m.LocalHost()
		}
	}
	if sd == "" {
		sd = "-"
	}
	sym.Assert(encoded(m) == refMsg(prio, ts, host, app, pid, msgid, sd, text), "a setter changes another field or not its own")
	sym.Reach("encoded")
}

// C04_error: structured data that cannot be encoded.
func C04_error() {
	n := sym.Split(sym.Int("elements", 1, 3))
	bad := sym.Split(sym.Int("bad", 0, 2))
	sym.Assume(bad < n)
	boom := errors.New("boom")
	m := syslog.CreateWholeMessage(13, stamp, "h0", "a0", "p0", "m0", sym.StringUpTo("text", 2))
	for i := 0; i < n; i++ {
		sd := rawSD{text: "[a]"}
		if i == bad {
			sd.err = boom
		}
		m = m.StructuredData(sd)
	}
	b, err := m.Marshal5424()
	sym.Assert(err == boom, "the error of the structured data is lost")
	sym.Assert(len(b) == 0, "bytes are returned together with an error")
	sym.Reach("refused")
}
