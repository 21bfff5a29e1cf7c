package harness

import (
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// valueSD is an element with a value of the harness.
func valueSD(v string) sdata.StructuredData { return syslog.GenericSD(exSD{A: v}) }

type derived struct {
	m    syslog.Message
	text string
	sd   int
}

// C22_tree: messages derived from one another in any order keep their encoding.
func C22_tree() {
	v := "v" + sym.String("value", 1)
	first := syslog.CreateWholeMessage(13, stamp, "h", "a", "p", "m", "t")
	all := []derived{{first, encoded(first), 0}}
	for i := 1; i <= sym.Bound("derivations", 4, 5); i++ {
		id := strconv.Itoa(i)
		from := all[sym.Split(sym.Int("from"+id, 0, len(all)-1))]
		max := 3
		if i > 2 {
			max = 1
		}
		k := sym.Split(sym.Int("elements"+id, 0, max))
		m := from.m
		switch k {
		case 0:
			m = m.Host("h" + id)
		case 1:
			m = m.StructuredData(valueSD(v + id))
		case 2:
			m = m.StructuredData(valueSD(v+id), valueSD("b"+id))
		case 3:
			m = m.StructuredData(valueSD(v+id), valueSD("b"+id), valueSD("c"+id))
		}
		all = append(all, derived{m, encoded(m), from.sd + k})
	}
	for _, d := range all {
		sym.Assert(encoded(d.m) == d.text, "deriving a message changed another one")
	}
	sym.Reach("derived")
}

// C22_setters: a setter leaves the message alone, structured data included.
func C22_setters() {
	s := upTo("value", sym.Bound("value bytes", 2, 4))
	base := syslog.CreateWholeMessage(13, stamp, "h", "a", "p", "m", "text").StructuredData(valueSD("x"), valueSD("y"), valueSD("z")).StructuredData(valueSD("w"))
	before := encoded(base)
	sibling := base.StructuredData(valueSD("sibling"))
	sib := encoded(sibling)
	var m syslog.Message
	switch sym.Split(sym.Int("setter", 0, 12)) {
	case 0:
		m = base.Host(s)
	case 1:
		m = base.AppName(s)
	case 2:
		m = base.ProcID(s)
	case 3:
		m = base.MsgID(s)
	case 4:
		m = base.Msg(s)
	case 5:
		m = base.Priority(syslog.Priority(sym.Int("prio", 0, 191)))
	case 6:
		m = base.Time(stamp.Add(time.Hour))
	case 7:
		m = base.Now()
	case 8:
		m = base.LocalHost()
	case 9:
		m = base.Epoch("12", "13")
	case 10:
		m = base.StructuredData(valueSD(s))
	case 11:
		m = base.Delta(stamp, "1", "2")
	case 12:
		m = base.Timestamp("Jan  2 03:04:05")
	}
	_ = m.String()
	sym.Assert(encoded(base) == before, "a setter changed its message")
	sym.Assert(encoded(sibling) == sib, "a setter changed a message derived earlier")
	sym.Reach("set")
}

// C22_list: lists of structured data are values too.
func C22_list() {
	var elems []sdata.StructuredData
	n := sym.Split(sym.Int("elements", 0, 5))
	extra := sym.Split(sym.Int("room", 0, 2))
	elems = make([]sdata.StructuredData, 0, n+extra)
	for i := 0; i < n; i++ {
		elems = append(elems, valueSD(string(rune('a'+i))))
	}
	v := sym.String("value", 1)
	base := sdata.List(elems)
	text := base.String()
	one := base.Add(valueSD(v), valueSD("1"))
	oneText := one.String()
	two := base.Add(valueSD("other"))
	sym.Assert(base.String() == text, "Add changed its list")
	sym.Assert(one.String() == oneText, "Add changed a list made earlier")
	three := two.Add(elems...)
	elems = append(elems[:0], valueSD("overwritten"))
	sym.Assert(len(three) == len(two)+n, "Add did not add")
	sym.Assert(one.String() == oneText, "a list shares memory with the slice it was made from")
	_ = elems
	sym.Reach("added")
}

// C22_args: the slice of elements given to a message may be used again.
func C22_args() {
	in := []sdata.StructuredData{valueSD(sym.String("value", 1)), timequality.TimeQuality{TzKnown: true}}
	m := syslog.CreateWholeMessage(13, stamp, "h", "a", "p", "m", "text")
	if bit("some") {
		m = m.StructuredData(valueSD("x"))
	}
	m = m.StructuredData(in...)
	before := encoded(m)
	in[0], in[1] = valueSD("changed"), valueSD("changed")
	sym.Assert(encoded(m) == before, "a message keeps the caller's slice")
	sym.Reach("kept")
}

// C22_received: reading a received message changes neither it nor its buffer.
func C22_received() {
	t := anyTransport()
	n := sym.Bound("bytes per part", 2, 3)
	part := []string{"host", "app", "pid", "msgid", `[a b="c"][timeQuality tzKnown="1"]`, "text"}
	switch k := sym.Split(sym.Int("part", 0, 5)); k {
	case 4:
		part[k] = `[a b="` + upTo("bytes", n) + `"]`
	case 5:
		part[k] = upTo("bytes", n)
	default:
		part[k] = sym.String("bytes", n)
		is(part[k][0] == ' ')
		is(part[k][n-1] == ' ')
	}
	s := "<13>1 2020-01-02T03:04:05Z"
	for _, p := range part {
		s += " " + p
	}
	frame := c05frame(t, s)
	buf := []byte(frame + "after")
	if t == nil {
		buf = []byte(frame)
	}
	before := string(buf)
	m, _, err := syslog.Parse(buf, t, false)
	sym.Assert(string(buf) == before, "parsing changes the buffer")
	if err != nil {
		sym.Reach("refused")
		return
	}
	text := m.String()
	first := encoded(m.Writable())
	for i := 0; i < 2; i++ {
		m.Priority()
		m.TimeStamp()
		m.Hostname()
		m.AppName()
		m.ProcID()
		m.MsgID()
		m.StructuredData()
		m.Text()
		var rec recorder
		m.WriteTo(&rec)
	}
	w := m.Writable()
	w = w.StructuredData(valueSD("x")).Host("other").Msg("other")
	_ = w.String()
	l := m.StructuredData()
	l.Add(valueSD("y"))
	if len(l) > 0 {
		l[0] = valueSD("z")
	}
	sym.Assert(string(buf) == before, "reading a message changes the buffer")
	sym.Assert(m.String() == text, "reading a message changes it")
	sym.Assert(encoded(m.Writable()) == first, "reading a message changes what it is converted to")
	sym.Reach("read")
}
