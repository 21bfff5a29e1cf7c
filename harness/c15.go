package harness

import (
	"os"
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// allLogged returns the messages that f logs, without their frames, at the fixed time.
func allLogged(f func(*syslog.Sender)) []string {
	old := syslog.Now
	syslog.Now = func() time.Time { return stamp }
	out := sent(syslog.TransportZeroEnded, f)
	syslog.Now = old
	for i, s := range out {
		sym.Assert(len(s) > 0 && s[len(s)-1] == 0, "frame is not terminated")
		out[i] = s[:len(s)-1]
	}
	return out
}

// c15check: what is logged with that minimum on the channel of that severity.
func c15check(fac, min, sev int, channel func(*syslog.Syslog) syslog.Channel, app string) {
	isNull := false
	out := allLogged(func(s *syslog.Sender) {
		l, err := syslog.New(s, syslog.Priority(8*fac+min), "app")
		sym.Assert(err == nil, "New fails")
		c := channel(l)
		isNull = c.IsDevNull()
		c.Log("one")
		c.Write([]byte("two"))
		c.Logger("").Print("three")
	})
	sym.Assert(isNull == (sev > min), "a channel is null although it is enabled, or the other way round")
	if sev > min {
		sym.Assert(len(out) == 0, "a message below the minimum is sent")
		sym.Reach("discarded")
		return
	}
	sym.Assert(len(out) == 3, "a message is not sent")
	for i, text := range []string{"one", "two"} {
		want := refMsg(8*fac+sev, stampText, "verif.example", app, strconv.Itoa(os.Getpid()), "-", "-", text)
		sym.Assert(out[i] == want, "the message is not the text with the facility of the logger and the severity of the channel")
	}
	head := "<" + strconv.Itoa(8*fac+sev) + ">1 "
	sym.Assert(len(out[2]) > len(head) && out[2][:len(head)] == head, "the standard logger uses another priority")
	sym.Reach("sent")
}

// c15prio: any facility, and every minimum and severity.
func c15prio() (fac, min, sev int) {
	return sym.Int("facility", 0, 23), sym.Split(sym.Int("minimum", 0, 7)), sym.Split(sym.Int("severity", 0, 7))
}

// C15_filter: every minimum and severity, with any facility in the argument of Channel.
func C15_filter() {
	fac, min, sev := c15prio()
	arg := sym.Int("facility of the argument", 0, 31)
	c15check(fac, min, sev, func(l *syslog.Syslog) syslog.Channel {
		return l.Channel(syslog.Priority(8*arg + sev))
	}, "app")
}

// C15_again: asking for other channels before makes no difference.
func C15_again() {
	fac, min, sev := c15prio()
	other := sym.Split(sym.Int("other", 0, 7))
	c15check(fac, min, sev, func(l *syslog.Syslog) syslog.Channel {
		l.Channel(syslog.Priority(other))
		l.SubSyslog("x").Channel(syslog.Priority(other))
		return l.Channel(syslog.Priority(sev))
	}, "app")
}

// C15_sub: sub-loggers.
func C15_sub() {
	fac, min, sev := c15prio()
	depth := sym.Split(sym.Int("depth", 1, 3))
	before := bit("channels before")
	app := "app"
	for i := 0; i < depth; i++ {
		app += "/s"
	}
	c15check(fac, min, sev, func(l *syslog.Syslog) syslog.Channel {
		if before {
			l.Channel(syslog.LogEMERG)
		}
		for i := 0; i < depth; i++ {
			l = l.SubSyslog("s")
		}
		return l.Channel(syslog.Priority(sev))
	}, app)
}

// C15_at_once: two goroutines ask a logger for channels at once.
func C15_at_once() {
	min := sym.Split(sym.Int("minimum", 3, 5))
	sub := bit("sub-logger")
	out := allLogged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.Priority(min), "app")
		if sub {
			l = l.SubSyslog("s")
		}
		done := make(chan bool)
		for i := 3; i < 5; i++ {
			go func() {
				c := l.Channel(syslog.Priority(i))
				sym.Assert(c.IsDevNull() == (i > min), "a channel is null although it is enabled, or the other way round")
				c.Log("text")
				done <- true
			}()
		}
		<-done
		<-done
	})
	sym.Assert(len(out) == []int{1, 2, 2}[min-3], "a message of an enabled channel is lost")
	sym.Reach("checked")
}
