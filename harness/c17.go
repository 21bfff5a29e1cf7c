package harness

import (
	"os"
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// c17channel is a channel of one of the kinds.
func c17channel(s *syslog.Sender, sev syslog.Priority) (c syslog.Channel, app, msgid string) {
	l, _ := syslog.New(s, syslog.LogUSER|syslog.LogDEBUG, "app")
	c = l.Channel(sev)
	switch sym.Split(sym.Int("channel", 0, 3)) {
	case 1:
		return c.AppName("sub"), "app/sub", "-"
	case 2:
		return c.Msgid("id"), "app", "id"
	case 3:
		return l.SubSyslog("s").Channel(sev).AppName("t").Msgid("id"), "app/s/t", "id"
	}
	return c, "app", "-"
}

func c17msg(sev syslog.Priority, app, msgid, sd, text string) string {
	return refMsg(8+int(sev), stampText, "verif.example", app, strconv.Itoa(os.Getpid()), msgid, sd, text)
}

// C17_write: Write.
func C17_write() {
	text := upTo("text", sym.Bound("text bytes", 4, 6))
	want := refText(text)
	b := []byte(text)
	kept := append([]byte{}, b...)
	var app, msgid string
	n := 0
	var err error
	unchanged := true
	out := allLogged(func(s *syslog.Sender) {
		var c syslog.Channel
		c, app, msgid = c17channel(s, syslog.LogINFO)
		n, err = c.Write(b)
		unchanged = string(b) == string(kept)
		for i := range b {
			b[i] = 'X'
		}
		c.Write([]byte("second"))
	})
	sym.Assert(unchanged, "Write modifies the caller's buffer")
	sym.Assert(n == len(text) && err == nil, "Write does not report all bytes")
	sym.Assert(len(out) == 2, "two Write calls are not two messages")
	sym.Assert(out[0] == c17msg(syslog.LogINFO, app, msgid, "-", want), "the message is not what was written")
	sym.Assert(out[1] == c17msg(syslog.LogINFO, app, msgid, "-", "second"), "the second message is not what was written")
	sym.Reach("written")
}

// C17_log: Log with and without structured data.
func C17_log() {
	text := upTo("text", sym.Bound("text bytes", 2, 4))
	trimmed := refText(text)
	n := sym.Split(sym.Int("elements", 0, sym.Bound("elements", 2, 3)))
	v := sym.String("value", 1)
	var sd []sdata.StructuredData
	want := ""
	for i := 0; i < n; i++ {
		sd = append(sd, valueSD(v+strconv.Itoa(i)))
		want += `[ex@32473 a="` + refEscape(v+strconv.Itoa(i)) + `"]`
	}
	if n == 0 {
		want = "-"
	}
	var app, msgid string
	out := allLogged(func(s *syslog.Sender) {
		var c syslog.Channel
		c, app, msgid = c17channel(s, syslog.LogERR)
		c.Log(text, sd...)
		for i := range sd {
			sd[i] = valueSD("changed")
		}
		c.Log("second")
	})
	sym.Assert(len(out) == 2, "two Log calls are not two messages")
	sym.Assert(out[0] == c17msg(syslog.LogERR, app, msgid, want, trimmed), "the message is not what was logged")
	sym.Assert(out[1] == c17msg(syslog.LogERR, app, msgid, "-", "second"), "the second message is not what was logged")
	sym.Reach("logged")
}

// C17_std: the standard logger of a channel.
func C17_std() {
	sev := []syslog.Priority{syslog.LogERR, syslog.LogDEBUG}[sym.Split(sym.Int("severity", 0, 1))]
	text := upTo("text", sym.Bound("text bytes", 2, 4))
	prefix := []string{"", "prefix: "}[sym.Split(sym.Int("prefix", 0, 1))]
	var trimmed []string
	for _, t := range []string{text, "5!"} {
		trimmed = append(trimmed, refText(prefix+t))
	}
	var app, msgid string
	out := allLogged(func(s *syslog.Sender) {
		var c syslog.Channel
		c, app, msgid = c17channel(s, sev)
		l := c.Logger(prefix)
		l.Print(text)
		l.Printf("%d!", 5)
	})
	sym.Assert(len(out) == 2, "two Print calls are not two messages")
	for i, t := range []string{text, "5!"} {
		if sev == syslog.LogDEBUG {
			// the standard logger puts the place of the call between the prefix and the text
			head := c17msg(sev, app, msgid, "-", prefix+"c17.go:")
			sym.Assert(len(out[i]) >= len(head) && out[i][:len(head)] == head, "the message does not begin with the place of the call")
			place := head + "100: "
			sym.Assert(len(out[i]) >= len(place)-1 && out[i][:len(head)] == head, "the message does not begin with the place of the call")
			want := refText("n: " + t)
			if len(want) > 2 {
				want = want[2:]
				sym.Assert(len(out[i]) > len(want) && out[i][len(out[i])-len(want):] == want, "the message does not end with the text")
			}
			continue
		}
		sym.Assert(out[i] == c17msg(sev, app, msgid, "-", trimmed[i]), "the message is not what was printed")
	}
	sym.Reach("printed")
}

// C17_null: null channels.
func C17_null() {
	text := upTo("text", sym.Bound("text bytes", 4, 8))
	b := []byte(text)
	n, k := 0, 0
	var err, kerr error
	out := allLogged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.LogERR, "app")
		c := l.Channel(syslog.LogINFO)
		switch sym.Split(sym.Int("channel", 0, 3)) {
		case 1:
			c = c.AppName("x")
		case 2:
			c = c.Msgid("x")
		case 3:
			c = l.SubSyslog("y").Channel(syslog.LogDEBUG).Msgid("x").AppName("z")
		}
		n, err = c.Write(b)
		c.Log(text)
		c.Log(text, valueSD("x"))
		c.Logger("p").Print(text)
		k, kerr = c.Write(nil)
		l.Channel(syslog.LogERR).Log("end")
	})
	sym.Assert(n == len(text) && err == nil && k == 0 && kerr == nil, "Write on a null channel does not report all bytes")
	sym.Assert(string(b) == text, "Write modifies the caller's buffer")
	sym.Assert(len(out) == 1 && out[0] == c17msg(syslog.LogERR, "app", "-", "-", "end"), "something is sent on a null channel")
	sym.Reach("discarded")
}

// C17_time: messages carry the current time.
func C17_time() {
	now := time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)
	sym.SetNow(int(now.Unix()))
	how := sym.Split(sym.Int("how", 0, 2))
	out := sent(syslog.TransportZeroEnded, func(s *syslog.Sender) {
		c, _, _ := c17channel(s, syslog.LogERR)
		switch how {
		case 0:
			c.Log("x")
		case 1:
			c.Write([]byte("x"))
		case 2:
			c.Logger("").Print("x")
		}
	})
	sym.Assert(len(out) == 1 && len(out[0]) > 33 && out[0][6:33] == "2031-05-06T07:08:09.123456Z", "the time is not the current time")
	sym.Reach("sent")
}
