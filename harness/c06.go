package harness

import (
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// exSD is a structured data element with named parameters.
type exSD struct {
	A string   `sd5424:"a"`
	L []string `sd5424:"l"`
}

func (exSD) String() string { return "ex@32473" }
func (exSD) IsIANA() bool   { return false }
func (exSD) GetPEN() uint64 { return 32473 }

// demoSD is like exSD, of a kind that the harness registered.
type demoSD struct {
	A string `sd5424:"a"`
}

func (demoSD) String() string { return "demo@1" }
func (demoSD) IsIANA() bool   { return false }
func (demoSD) GetPEN() uint64 { return 1 }

// refEscape is the form of a value between quotes.
func refEscape(v string) string {
	s := ""
	for i := 0; i < len(v); i++ {
		if is(v[i] == '"' || v[i] == '\\' || v[i] == ']') {
			s += "\\"
		}
		s += v[i : i+1]
	}
	return s
}

// c06trip encodes, frames, parses, and encodes again.
func c06trip(msg syslog.Message, fields []string, text string) syslog.MessageImmutable {
	t := anyTransport()
	enc, err := msg.Marshal5424()
	sym.Assert(err == nil, "encoding fails")
	switch t {
	case syslog.TransportZeroEnded:
		noByte(string(enc), 0)
	case syslog.TransportLFEnded:
		noByte(string(enc), '\n')
	}
	after := ""
	if t != nil {
		after = upTo("after", 1)
	}
	buf := []byte(c05frame(t, string(enc)) + after)
	m, rest, err := syslog.Parse(buf, t, is(sym.Bool("eof")))
	sym.Assert(err == nil, "the encoding of a message is refused")
	sym.Assert(string(rest) == after, "the rest is not what follows the frame")
	sym.Assert(m.Hostname() == fields[0], "Hostname is not what was encoded")
	sym.Assert(m.AppName() == fields[1], "AppName is not what was encoded")
	sym.Assert(m.ProcID() == fields[2], "ProcID is not what was encoded")
	sym.Assert(m.MsgID() == fields[3], "MsgID is not what was encoded")
	sym.Assert(m.Text() == text, "Text is not what was encoded")
	sym.Assert(m.String() == string(enc), "String is not the encoding")
	again, err := m.Writable().Marshal5424()
	sym.Assert(err == nil, "the parsed message cannot be encoded")
	sym.ObsStr("again", string(again))
	sym.Assert(string(again) == string(enc), "the parsed message encodes to other bytes")
	sym.Reach("round trip")
	return m
}

var c06fields = []string{"host", "app", "pid", "msgid"}

func c06msg(text string) syslog.Message {
	return syslog.CreateWholeMessage(13, stamp, "host", "app", "pid", "msgid", text)
}

// C06_text: any text.
func C06_text() {
	text := upTo("text", sym.Bound("text bytes", 5, 7))
	sym.Assume(text == "" || text[len(text)-1] > 32 && text[len(text)-1] < 127) // C04 has what is removed at the end
	for i := 0; i < len(text); i++ {
		is(text[i] == ' ')
	}
	m := c06trip(c06msg(text), c06fields, text)
	sym.Assert(m.Priority() == 13 && m.TimeStamp().Equal(stamp.Truncate(time.Microsecond)), "priority or time are not what was encoded")
	sym.Assert(len(m.StructuredData()) == 0, "structured data is made up")
}

// C06_header: any header fields.
func C06_header() {
	n := sym.Bound("bytes per field", 2, 3)
	in := []string{upTo("host", n), sym.String("app", 1), sym.String("pid", 1), upTo("msgid", 1)}
	msg := syslog.CreateWholeMessage(13, stamp, in[0], in[1], in[2], in[3], "text")
	c06trip(msg, []string{refField(in[0], 255), refField(in[1], 48), refField(in[2], 128), refField(in[3], 32)}, "text")
}

// C06_long: header fields at their limits.
func C06_long() {
	k := sym.Split(sym.Int("field", 0, 3))
	in := []string{"host", "app", "pid", "msgid"}
	limits := []int{255, 48, 128, 32}
	in[k] = near("f", limits[k])
	want := []string{"host", "app", "pid", "msgid"}
	want[k] = refField(in[k], limits[k])
	c06trip(syslog.CreateWholeMessage(13, stamp, in[0], in[1], in[2], in[3], "text"), want, "text")
}

// C06_prio: any priority.
func C06_prio() {
	p := sym.Split(sym.Int("prio", 0, 255))
	m := c06trip(c06msg("x").Priority(syslog.Priority(p)), c06fields, "x")
	sym.Assert(int(m.Priority()) == p, "the priority is not what was encoded")
}

// c06sd compares the structured data of a parsed message.
func c06sd(m syslog.MessageImmutable, want []string) {
	sd := m.StructuredData()
	sym.Assert(len(sd) == len(want), "structured data elements are lost or made up")
	for i, w := range want {
		b, err := sd[i].Marshal5424()
		sym.Assert(err == nil && string(b) == w, "a structured data element is not the one that was encoded")
	}
}

// C06_value: any value in structured data.
func C06_value() {
	v := upTo("value", sym.Bound("value bytes", 4, 6))
	e := refEscape(v)
	text := []string{"", "]", `"] [x]`}[sym.Split(sym.Int("text", 0, 2))]
	want := `[ex@32473 a="` + e + `"]`
	if v == "" {
		want = "[ex@32473]"
	}
	c06sd(c06trip(c06msg(text).StructuredData(syslog.GenericSD(exSD{A: v})), c06fields, text), []string{want})
}

// C06_elements: several elements, of unregistered and registered kinds.
func C06_elements() {
	n := sym.Bound("value bytes", 1, 2)
	text := []string{"", "text"}[sym.Split(sym.Int("text", 0, 1))]
	msg := c06msg(text)
	acc := sym.Int("accuracy", -9, 9)
	var want []string
	for i := 0; i < sym.Bound("elements", 2, 3); i++ {
		id := string(rune('1' + i))
		switch sym.Split(sym.Int("kind"+id, 0, 5)) {
		case 0:
			v, w := upTo("v"+id, n), sym.String("w"+id, 1)
			s := "[ex@32473"
			if v != "" {
				s += ` a="` + refEscape(v) + `"`
			}
			want = append(want, s+` l="`+refEscape(w)+`" l="" l="x"]`)
			msg = msg.StructuredData(syslog.GenericSD(exSD{A: v, L: []string{w, "", "x"}}))
		case 1:
			want = append(want, "[timeQuality]")
			msg = msg.StructuredData(timequality.TimeQuality{})
		case 2:
			a := sym.Split(acc)
			s := string(rune('0' + a))
			if a < 0 {
				s = "-" + string(rune('0'-a))
			}
			want = append(want, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="`+s+`"]`)
			msg = msg.StructuredData(timequality.TimeQuality{TzKnown: true, IsSynced: true, SyncAccuracy: &a})
		case 3:
			want = append(want, "[demo@1]")
			msg = msg.StructuredData(syslog.GenericSD(demoSD{}))
		case 4:
			v := sym.String("d"+id, 1)
			want = append(want, `[demo@1 a="`+refEscape(v)+`"]`)
			msg = msg.StructuredData(syslog.GenericSD(demoSD{v}))
		}
	}
	c06sd(c06trip(msg, c06fields, text), want)
}
