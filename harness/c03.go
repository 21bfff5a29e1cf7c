package harness

import (
	"os"
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

func c03check(m syslog.Message, host, app, pid, msgid string) {
	enc := encoded(m)
	sym.ObsStr("encoded", enc)
	want := refMsg(0, stampText, refField(host, 255), refField(app, 48), refField(pid, 128), refField(msgid, 32), "-", "")
	sym.Assert(enc == want, "the header fields of the encoded message are not the sanitised values")
	sym.Reach("checked")
}

// C03_whole: CreateWholeMessage with four arbitrary fields.
func C03_whole() {
	n := sym.Bound("field bytes", 6, 12)
	host, app, pid, msgid := sym.StringUpTo("host", n), sym.StringUpTo("app", n), sym.StringUpTo("pid", n), sym.StringUpTo("msgid", n)
	c03check(syslog.CreateWholeMessage(0, stamp, host, app, pid, msgid, ""), host, app, pid, msgid)
}

// C03_setters: the same through the setters.
func C03_setters() {
	n := sym.Bound("field bytes", 6, 12)
	host, app, pid, msgid := sym.StringUpTo("host", n), sym.StringUpTo("app", n), sym.StringUpTo("pid", n), sym.StringUpTo("msgid", n)
	m := syslog.EmptyMessage().Time(stamp).Host("h o").AppName("a p").ProcID("p i").MsgID("m s")
	m = m.Host(host).AppName(app).ProcID(pid).MsgID(msgid)
	c03check(m, host, app, pid, msgid)
}

// C03_longHost and so on: lengths around the limit of each field, through constructor and setter.
func C03_longHost() {
	s := near("host", 255)
	c03check(syslog.CreateWholeMessage(0, stamp, s, "a", "p", "m", ""), s, "a", "p", "m")
	c03check(syslog.EmptyMessage().Time(stamp).Host(s), s, "-", "-", "-")
}

func C03_longApp() {
	s := near("app", 48)
	c03check(syslog.CreateWholeMessage(0, stamp, "h", s, "p", "m", ""), "h", s, "p", "m")
	c03check(syslog.EmptyMessage().Time(stamp).AppName(s), "-", s, "-", "-")
	c03check(syslog.CreateMessage(s, 0, "").Time(stamp).Host("h"), "h", s, "-", "-")
}

func C03_longProc() {
	s := near("pid", 128)
	c03check(syslog.CreateWholeMessage(0, stamp, "h", "a", s, "m", ""), "h", "a", s, "m")
	c03check(syslog.EmptyMessage().Time(stamp).ProcID(s), "-", "-", s, "-")
}

func C03_longMsgid() {
	s := near("msgid", 32)
	c03check(syslog.CreateWholeMessage(0, stamp, "h", "a", "p", s, ""), "h", "a", "p", s)
	c03check(syslog.EmptyMessage().Time(stamp).MsgID(s), "-", "-", "-", s)
}

// C03_create_symhost: CreateMessage and LocalHost take the host name of the system, whatever it is.
func C03_create_symhost() {
	app := sym.StringUpTo("app", sym.Bound("app bytes", 6, 12))
	h := osHostname()
	c03check(syslog.CreateMessage(app, 0, "").Time(stamp), h, app, "-", "-")
	c03check(syslog.EmptyMessage().Time(stamp).LocalHost(), h, "-", "-", "-")
}

// logged returns the single message that f produces.
func logged(f func(*syslog.Sender)) string {
	old := syslog.Now
	syslog.Now = func() time.Time { return stamp }
	out := sent(syslog.TransportZeroEnded, f)
	syslog.Now = old
	sym.Assert(len(out) == 1, "one log call does not produce one message")
	s := out[0]
	sym.Assert(len(s) > 0 && s[len(s)-1] == 0, "frame is not terminated")
	return s[:len(s)-1]
}

func c03logger(msg, host, app, msgid string) {
	sym.ObsInt("message length", len(msg))
	want := refMsg(8+3, stampText, host, app, strconv.Itoa(os.Getpid()), msgid, "-", "x")
	sym.Assert(msg == want, "the header fields of a logged message are not the sanitised values")
	sym.Reach("logged")
}

// C03_logger_symhost: a logger with an arbitrary application name on a system with an arbitrary name.
func C03_logger_symhost() {
	app := sym.StringUpTo("app", sym.Bound("name bytes", 4, 8))
	sym.Assume(len(app) > 0)
	h := refField(osHostname(), 255)
	msg := logged(func(s *syslog.Sender) {
		l, err := syslog.New(s, syslog.LogUSER|syslog.LogDEBUG, app)
		sym.Assert(err == nil, "New fails")
		l.Channel(syslog.LogERR).Log("x")
	})
	c03logger(msg, h, refField(app, 48), "-")
}

// c03base is the application name of a logger that others are derived from, and what derived names start with.
func c03base() (base, head string) {
	switch sym.Split(sym.Int("base", 0, 2)) {
	case 0:
		return "-", ""
	case 1:
		return "app", "app/"
	}
	base = sym.String("name", 1)
	if is(base == "-") {
		return base, ""
	}
	return base, base + "/"
}

// C03_channel: application name and message id given to a channel.
func C03_channel() {
	n := sym.Bound("name bytes", 4, 8)
	sub, id := sym.StringUpTo("sub", n), sym.StringUpTo("msgid", n)
	base, head := c03base()
	msg := logged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.LogDEBUG, base)
		l.Channel(syslog.LogERR).AppName(sub).Msgid(id).Log("x")
	})
	c03logger(msg, "verif.example", refField(head+sub, 48), refField(id, 32))
}

// C03_sub: application name given to a sub-logger.
func C03_sub() {
	sub := sym.StringUpTo("sub", sym.Bound("name bytes", 6, 12))
	base, head := c03base()
	msg := logged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.LogDEBUG, base)
		l.SubSyslog(sub).Channel(syslog.LogERR).Log("x")
	})
	c03logger(msg, "verif.example", refField(head+sub, 48), "-")
}

// C03_subLong: names that get too long by nesting.
func C03_subLong() {
	a, b := sym.String("a", 24), sym.String("b", sym.Split(sym.Int("b.n", 22, 25)))
	how := sym.Split(sym.Int("how", 0, 1))
	msg := logged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.LogDEBUG, a)
		if how == 0 {
			l.SubSyslog(b).Channel(syslog.LogERR).Log("x")
		} else {
			l.Channel(syslog.LogERR).AppName(b).Log("x")
		}
	})
	c03logger(msg, "verif.example", refField(a+"/"+b, 48), "-")
}
