package harness

import (
	"os"
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// stamp is the instant used where the timestamp is of no interest.
var stamp = time.Unix(1577934245, 123456789).UTC()

const stampText = "2020-01-02T03:04:05.123456Z"

// refField is what a header field must become.
func refField(s string, limit int) string {
	if len(s) == 0 {
		return "-"
	}
	if len(s) > limit {
		s = s[:limit]
	}
	b := []byte(s)
	for i := range b {
		if b[i] < 33 || b[i] > 126 {
			b[i] = '%'
		}
	}
	return string(b)
}

// refMsg is the layout of a message.
func refMsg(prio int, ts, host, app, pid, msgid, sd, text string) string {
	s := "<" + strconv.Itoa(prio) + ">1 " + ts + " " + host + " " + app + " " + pid + " " + msgid + " " + sd
	if text != "" {
		s += " " + text
	}
	return s
}

// recorder is a connection that keeps what is written to it.
type recorder struct {
	writes []string
	closed int
}

func (r *recorder) Write(d []byte) (int, error) {
	r.writes = append(r.writes, string(d))
	return len(d), nil
}

func (r *recorder) Close() error {
	r.closed++
	return nil
}

// sent runs f with a sender and returns what is written to the connection.
func sent(t syslog.Transport, f func(*syslog.Sender)) []string {
	rec := &recorder{}
	s, _ := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return rec, nil }), t, make(chan time.Time))
	f(s)
	s.End()
	return rec.writes
}

// encoded is the encoding of a message that must succeed.
func encoded(m syslog.Message) string {
	b, err := m.Marshal5424()
	sym.Assert(err == nil, "encoding fails")
	return string(b)
}

// near is a string whose length is close to limit.
func near(name string, limit int) string {
	n := sym.Split(sym.Int(name+".near", limit-1, limit+2))
	return sym.String(name, n)
}

// osHostname is the name of the system.
func osHostname() string {
	h, err := os.Hostname()
	if err != nil {
		return "-"
	}
	return h
}

// upTo is a string of at most max bytes; every length is explored on its own.
func upTo(name string, max int) string {
	return sym.String(name, sym.Split(sym.Int(name+".len", 0, max)))
}

// between assumes that every byte of s is in a range.
func between(s string, lo, hi byte) string {
	for i := 0; i < len(s); i++ {
		sym.Assume(lo <= s[i] && s[i] <= hi)
	}
	return s
}
