package harness

import (
	"strconv"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	_ "github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// demoID is a structured data kind of the harness.
type demoID struct{ name string }

func (d demoID) String() string { return d.name }
func (d demoID) IsIANA() bool   { return false }
func (d demoID) GetPEN() uint64 { return 32473 }

var registeredID = sdata.Register(sdata.GenericSD(demoID{"demo@1"}).SDID())

// anyTransport is one of the transports, or none.
func anyTransport() syslog.Transport {
	ts := []syslog.Transport{nil, syslog.TransportZeroEnded, syslog.TransportLFEnded, syslog.TransportRFC5425}
	return ts[sym.Split(sym.Int("transport", 0, 3))]
}

// c05parse parses and uses everything a message offers.
func c05parse(b []byte, t syslog.Transport) {
	eof := is(sym.Bool("eof"))
	what, frame, after := refParse(t, string(b), eof)
	m, rest, err := syslog.Parse(b, t, eof)
	sym.Assert(string(rest) == after, "the rest is not what follows the frame")
	sym.Assert((err != nil) == (what == 1), "input is accepted or refused against the grammar")
	sym.Assert(m.String() == frame || what == 1, "the message is not the content of the frame")
	switch what {
	case 0:
		c05use(m)
	case 1:
		sym.Reach("error")
	case 2:
		sym.Reach("incomplete")
	}
}

func c05use(m syslog.MessageImmutable) {
	m.Priority()
	m.TimeStamp()
	m.Hostname()
	m.AppName()
	m.ProcID()
	m.MsgID()
	m.Text()
	m.StructuredData()
	m.Writable().Marshal5424()
	sym.Reach("message")
}

// C05_any: short arbitrary input.
func C05_any() {
	t := anyTransport()
	c05parse([]byte(upTo("input", sym.Bound("input bytes", 6, 7))), t)
}

// C05_fields: input made of single bytes and spaces, so that fields of every kind are present.
func C05_fields() {
	t := anyTransport()
	n := sym.Split(sym.Int("fields", 1, 8))
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " "
		}
		s += sym.String("f"+strconv.Itoa(i), 1)
	}
	c05parse([]byte(s+upTo("end", 1)), t)
}

// C05_prio: an arbitrary priority.
func C05_prio() {
	c05parse([]byte(upTo("prio", sym.Bound("priority bytes", 6, 7))+" - h a p m -"), nil)
}

// C05_time: an arbitrary time stamp.
func C05_time() {
	forms := []string{"2020-01-02T03:04:05", "2020-01-02T03:04:05.", "2020-01-02T03:04:05.1", "2020-01-02T", "20"}
	s := forms[sym.Split(sym.Int("form", 0, len(forms)-1))] + upTo("end", sym.Bound("time stamp bytes", 4, 6))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != ' ')
	}
	c05parse([]byte("<13>1 "+s+" h a p m -"), nil)
}

// C05_tail: arbitrary structured data and text.
func C05_tail() {
	t := anyTransport()
	c05parse([]byte(c05frame(t, c07head+upTo("tail", sym.Bound("bytes after the header", 5, 7)))), t)
}

// C05_known: elements that begin like those of a registered kind.
func C05_known() {
	names := []string{"timeQuality", "demo@1", "timeQuality isSynced=\"1\"", "timeQuality tzKnown=\"1\" isSynced=\"1\" syncAccuracy=\""}
	k := sym.Split(sym.Int("kind", 0, len(names)-1))
	cut := sym.Split(sym.Int("cut", 0, 1))
	n := names[k]
	c05parse([]byte(c07head+"["+n[:len(n)-cut]+upTo("more", sym.Bound("bytes", 5, 6))+"]"), nil)
}

// c05frame puts a message in a frame.
func c05frame(t syslog.Transport, msg string) string {
	if t == nil {
		return msg
	}
	return string(t.Encode([]byte(msg)))
}

// C05_frames: two frames, with arbitrary bytes at the seams.
func C05_frames() {
	t := anyTransport()
	sym.Assume(t != nil)
	n := sym.Bound("bytes at the seams", 2, 3)
	msgs := []string{c07head + "-", c07head + "- text", c07head + `[a b="c"]`}
	m := msgs[sym.Split(sym.Int("message", 0, 2))]
	c05parse([]byte(upTo("before", n)+c05frame(t, m+upTo("tail", n))+c05frame(t, m+upTo("between", n))), t)
}

// C05_count: a counted frame with an arbitrary count.
func C05_count() {
	c05parse([]byte(upTo("count", sym.Bound("count bytes", 4, 5))+" "+c07head+"-"), syslog.TransportRFC5425)
}

// C05_cut: frames that end early.
func C05_cut() {
	t := anyTransport()
	f := c05frame(t, c07head+`[a b="c"] x`)
	n := sym.Split(sym.Int("cut", 0, 70))
	sym.Assume(n <= len(f))
	c05parse([]byte(f[:n]+upTo("end", 1)), t)
}
