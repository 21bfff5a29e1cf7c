package harness

import (
	"strings"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var facNames = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news",
	"uucp", "cron", "authpriv", "ftp", "", "", "", "",
	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}

var sevNames = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}

// C02_parts: facility and severity parts, text form, text form read back.
func C02_parts() {
	v := sym.Int("prio", 0, 191)
	p := syslog.Priority(v)
	f, s := p.Facility(), p.Severity()
	sym.Assert(f|s == p && f&s == 0, "a priority is not the union of its parts")
	sym.Assert(int(f) == v/8*8 && int(s) == v%8, "facility or severity part is wrong")
	fn, sn := facNames[v/8], sevNames[v%8]
	str := p.String()
	sym.ObsStr("text", str)
	if fn == "" {
		sym.Reach("reserved facility")
		return
	}
	sym.Reach("named facility")
	sym.Assert(str == fn+"."+sn, "text form is not facility.severity")
	q := syslog.Priority(sym.Int("old", 0, 999))
	err := q.Set(str)
	sym.Assert(err == nil, "the text form is refused")
	sym.Assert(q == p, "the text form gives another priority")
}

// C02_constants: the exported names have the values of RFC 5424.
func C02_constants() {
	fac := []syslog.Priority{syslog.LogKERN, syslog.LogUSER, syslog.LogMAIL, syslog.LogDAEMON, syslog.LogAUTH, syslog.LogSYSLOG, syslog.LogLPR, syslog.LogNEWS,
		syslog.LogUUCP, syslog.LogCRON, syslog.LogAUTHPRIV, syslog.LogFTP, 96, 104, 112, 120,
		syslog.LogLOCAL0, syslog.LogLOCAL1, syslog.LogLOCAL2, syslog.LogLOCAL3, syslog.LogLOCAL4, syslog.LogLOCAL5, syslog.LogLOCAL6, syslog.LogLOCAL7}
	sev := []syslog.Priority{syslog.LogEMERG, syslog.LogALERT, syslog.LogCRIT, syslog.LogERR, syslog.LogWARNING, syslog.LogNOTICE, syslog.LogINFO, syslog.LogDEBUG}
	i, j := sym.Int("facility", 0, 23), sym.Int("severity", 0, 7)
	sym.Assert(int(fac[i]) == 8*i, "facility constant")
	sym.Assert(int(sev[j]) == j, "severity constant")
	sym.Reach("end")
}

// C02_setASCII: an ASCII text is accepted exactly if it is facility.severity.
func C02_setASCII() {
	t := upTo("text", sym.Bound("text bytes", 17, 20))
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 128)
	}
	c02set(t)
}

// C02_set: an arbitrary text is accepted exactly if it is facility.severity.
func C02_set() {
	c02set(upTo("text", sym.Bound("text bytes", 7, 9)))
}

// C02_words: names with other bytes around them.
func C02_words() {
	f := []string{"kern", "local7", "authpriv", "ftp", "-", "", "KERN", "user"}
	v := []string{"emerg", "debug", "err", "Err", "", "-", "warning", "notice"}
	n := sym.Bound("bytes around a name", 1, 2)
	c02set(upTo("before", n) + f[sym.Split(sym.Int("facility", 0, len(f)-1))] + upTo("between", 1) + "." +
		upTo("after dot", n) + v[sym.Split(sym.Int("severity", 0, len(v)-1))] + upTo("end", n))
}

func c02set(t string) {
	old := sym.Int("old", 0, 999)
	p := syslog.Priority(old)
	err := p.Set(t)
	sym.ObsBool("accepted", err == nil)
	sym.ObsInt("value", int(p))
	want := -1
	if i := strings.IndexByte(t, '.'); i >= 0 {
		f, s := -1, -1
		for k, n := range facNames {
			if n != "" && t[:i] == n {
				f = k
			}
		}
		for k, n := range sevNames {
			if t[i+1:] == n {
				s = k
			}
		}
		if f >= 0 && s >= 0 {
			want = 8*f + s
		}
	}
	if want >= 0 {
		sym.Reach("accepted")
		sym.Assert(err == nil, "facility.severity is refused")
		sym.Assert(int(p) == want, "facility.severity gives another priority")
	} else {
		sym.Reach("refused")
		sym.Assert(err != nil, "a text that is not facility.severity is accepted")
		sym.Assert(int(p) == old, "a refused text changes the priority")
	}
}

// C02_decoded: the text form exists for every priority that can be decoded.
func C02_decoded() {
	d := sym.Bytes("data", 6)
	var p syslog.Priority
	if p.Unmarshal5424(d) != nil {
		return
	}
	sym.Reach("decoded")
	s := p.String()
	sym.ObsStr("text", s)
	sym.Assert(len(s) >= 3, "text form is empty")
	sym.Assert(p.Facility()|p.Severity() == p&0xff, "a priority is not the union of its parts")
}
