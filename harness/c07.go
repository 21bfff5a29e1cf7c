package harness

import (
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// refPacket reads a whole packet.
func refPacket(s string) (fields []string, elems []refElem, text string, ok bool) {
	for len(fields) < 6 {
		i := 0
		for i < len(s) && !is(s[i] == ' ') {
			i++
		}
		if i == 0 || i == len(s) {
			return nil, nil, "", false
		}
		fields = append(fields, s[:i])
		s = s[i+1:]
	}
	elems, text, ok = refTail(s)
	return
}

func c07check(s string) {
	fields, elems, text, want := refPacket(s)
	m, rest, err := syslog.Parse([]byte(s), nil, sym.Bool("eof"))
	sym.Assert(len(rest) == 0, "parsing without a transport leaves a rest")
	sym.Assert((err == nil) == want, "a packet is accepted or refused against the grammar")
	if !want {
		sym.Reach("refused")
		return
	}
	sym.Assert(m.Hostname() == refField(fields[2], 255), "Hostname is not the third field")
	sym.Assert(m.AppName() == refField(fields[3], 48), "AppName is not the fourth field")
	sym.Assert(m.ProcID() == refField(fields[4], 128), "ProcID is not the fifth field")
	sym.Assert(m.MsgID() == refField(fields[5], 32), "MsgID is not the sixth field")
	sym.ObsStr("text", m.Text())
	sym.Assert(m.Text() == text, "Text is not what follows the structured data")
	sd := m.StructuredData()
	sym.Assert(len(sd) == len(elems), "structured data elements are lost or made up")
	for i, e := range elems {
		b, err := sd[i].Marshal5424()
		sym.Assert(err == nil && string(b) == e.canonical(), "a structured data element is not the one in the packet")
	}
	sym.Assert(m.String() == s, "String is not the packet")
	var rec recorder
	n, err := m.WriteTo(&rec)
	sym.Assert(err == nil && int(n) == len(s) && len(rec.writes) == 1 && rec.writes[0] == s, "WriteTo does not write the packet")
	sym.Reach("accepted")
}

const c07head = "<13>1 2020-01-02T03:04:05Z host app pid msgid "

// C07_tail: whatever follows the header fields.
func C07_tail() {
	c07check(c07head + upTo("tail", sym.Bound("bytes after the header", 6, 8)))
}

// C07_text: a text without structured data.
func C07_text() {
	c07check(c07head + "- " + upTo("text", sym.Bound("text bytes", 8, 20)))
}

// C07_element: one element and what follows.
func C07_element() {
	n := sym.Bound("bytes per part", 2, 3)
	c07check(c07head + "[a" + upTo("id", 1) + " " + "b=\"" + upTo("value", n) + `"` + upTo("end", 1) + "]" + upTo("after", n))
}

// C07_second: a second element and what follows.
func C07_second() {
	n := sym.Bound("bytes per part", 2, 3)
	c07check(c07head + `[a b="c"]` + upTo("between", 1) + "[" + upTo("id", n) + "]" + upTo("after", n))
}

// C07_textAfter: text after structured data, with whatever looks like structured data in it.
func C07_textAfter() {
	c07check(c07head + `[a b="c"] ` + upTo("text", sym.Bound("text bytes", 5, 7)))
}

// C07_header: two adjacent header fields are arbitrary.
func C07_header() {
	k := sym.Split(sym.Int("field", 0, 5))
	n := sym.Bound("bytes per field", 2, 3)
	f := []string{"<13>1", "2020-01-02T03:04:05Z", "host", "app", "pid", "msgid", "-"}
	f[k], f[k+1] = upTo("f1", n), upTo("f2", n)
	s := f[0]
	for _, x := range f[1:] {
		s += " " + x
	}
	c07check(s)
}

// C07_cut: packets that end early.
func C07_cut() {
	s := c07head + `[a b="c"][d]`
	n := sym.Split(sym.Int("cut", 0, len(s)-1))
	c07check(s[:n] + upTo("end", 1))
}

// C07_long: a header field around its limit.
func C07_long() {
	k := sym.Split(sym.Int("field", 2, 5))
	limits := []int{0, 0, 255, 48, 128, 32}
	x := 0
	if other := sym.Split(sym.Int("other", 2, 6)); other < 6 {
		x = limits[other] - 2
	} else {
		x = 300
	}
	f := []string{"<13>1", "2020-01-02T03:04:05Z", "host", "app", "pid", "msgid", "-"}
	b := make([]byte, x)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	f[k] = string(b) + upTo("end", sym.Bound("arbitrary bytes", 3, 5))
	s := f[0]
	for _, x := range f[1:] {
		s += " " + x
	}
	c07check(s)
}
