package harness

import (
	"os"
	"strconv"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// refJoin is the application name of what is derived with sub.
func refJoin(app, sub string) string {
	if is(app == "-") {
		return refField(sub, 48)
	}
	return refField(app+"/"+sub, 48)
}

type c16chan struct {
	c          syslog.Channel
	app, msgid string
	on         bool
}

// c16name is a name to derive with.
func c16name(name string) string {
	switch sym.Split(sym.Int(name+".kind", 0, 2)) {
	case 0:
		return ""
	case 1:
		return "-"
	}
	return sym.String(name, 2)
}

// c16check logs once on every channel.
func c16check(all []c16chan, prio int, pid, host string, out func(func()) []string) {
	got := out(func() {
		for i, c := range all {
			c.c.Log("m" + strconv.Itoa(i))
		}
	})
	n := 0
	for i, c := range all {
		sym.Assert(c.c.IsDevNull() == !c.on, "deriving enables or disables a channel")
		if !c.on {
			continue
		}
		want := refMsg(prio, stampText, host, c.app, pid, c.msgid, "-", "m"+strconv.Itoa(i))
		sym.Assert(n < len(got), "an enabled channel sends nothing")
		sym.Assert(got[n] == want, "a channel logs something else than its derivation says")
		n++
	}
	sym.Assert(n == len(got), "a message too many is sent")
	sym.Reach("logged")
}

// C16_tree: channels derived from one another in any order.
func C16_tree() {
	on := bit("enabled")
	sev, min := syslog.LogNOTICE, syslog.LogINFO
	if !on {
		sev = syslog.LogDEBUG
	}
	fac := sym.Int("facility", 0, 23)
	base := []string{"-", "app"}[sym.Split(sym.Int("base", 0, 1))]
	test := bit("test mode")
	host, pid := "verif.example", strconv.Itoa(os.Getpid())
	odd := sym.Split(sym.Int("odd", 1, 3))
	var all []c16chan
	out := allLogged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.Priority(8*fac)|min, base)
		if test {
			l.TestMode()
			host, pid = "localhost", "1234"
		}
		all = []c16chan{{l.Channel(sev), base, "-", on}}
		for i := 1; i <= sym.Bound("derivations", 3, 4); i++ {
			id := strconv.Itoa(i)
			from := all[sym.Split(sym.Int("from"+id, 0, len(all)-1))]
			n := from
			name := "n" + id
			if i == odd {
				name = c16name("name")
			}
			if bit("msgid" + id) {
				n.c, n.msgid = from.c.Msgid(name), refField(name, 32)
			} else {
				n.c, n.app = from.c.AppName(name), refJoin(from.app, name)
			}
			all = append(all, n)
		}
		for i, c := range all {
			c.c.Log("m" + strconv.Itoa(i))
		}
	})
	c16check(all, 8*fac+int(sev), pid, host, func(func()) []string { return out })
}

// C16_sub: sub-loggers and their channels, derived from one another.
func C16_sub() {
	fac := sym.Int("facility", 0, 23)
	base := []string{"-", "app"}[sym.Split(sym.Int("base", 0, 1))]
	type sub struct {
		l   *syslog.Syslog
		app string
	}
	var all []c16chan
	pid := strconv.Itoa(os.Getpid())
	out := allLogged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.Priority(8*fac)|syslog.LogNOTICE, base)
		subs := []sub{{l, base}}
		odd := sym.Split(sym.Int("odd", 1, 3))
		for i := 1; i <= sym.Bound("sub-loggers", 3, 4); i++ {
			id := strconv.Itoa(i)
			from := subs[sym.Split(sym.Int("from"+id, 0, len(subs)-1))]
			name := "s" + id
			if i == odd {
				name = c16name("name")
			}
			if i == 2 && bit("channels before") {
				from.l.Channel(syslog.LogEMERG)
			}
			subs = append(subs, sub{from.l.SubSyslog(name), refJoin(from.app, name)})
		}
		for i, x := range subs {
			on := i%2 == 0
			sev := syslog.LogNOTICE
			if !on {
				sev = syslog.LogINFO
			}
			all = append(all, c16chan{x.l.Channel(sev), x.app, "-", on})
			all = append(all, c16chan{x.l.Channel(sev).AppName("c"), refJoin(x.app, "c"), "-", on})
		}
		for i, c := range all {
			c.c.Log("m" + strconv.Itoa(i))
		}
	})
	c16check(all, 8*fac+int(syslog.LogNOTICE), pid, "verif.example", func(func()) []string { return out })
}

// C16_long: names that reach the limit by deriving.
func C16_long() {
	pid := strconv.Itoa(os.Getpid())
	var all []c16chan
	n := sym.Split(sym.Int("length", 20, 26))
	a, b := "a"+string(make([]byte, n)), sym.String("name", 24)
	out := allLogged(func(s *syslog.Sender) {
		l, _ := syslog.New(s, syslog.LogUSER|syslog.LogNOTICE, a)
		c := c16chan{l.Channel(syslog.LogNOTICE), refField(a, 48), "-", true}
		d := c16chan{c.c.AppName(b), refField(c.app+"/"+b, 48), "-", true}
		f := c16chan{d.c.Msgid(b + b).AppName("x"), refField(d.app+"/x", 48), refField(b+b, 32), true}
		all = []c16chan{c, d, f}
		for i, c := range all {
			c.c.Log("m" + strconv.Itoa(i))
		}
	})
	c16check(all, 8+5, pid, "verif.example", func(func()) []string { return out })
}
