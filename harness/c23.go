package harness

import (
	"strconv"
	"time"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

func digits(v, n int) string {
	s := ""
	for ; n > 0; n-- {
		s = string([]byte{byte('0' + v%10)}) + s
		v /= 10
	}
	return s
}

// refFraction is the fraction of a second to the microsecond, without trailing zeros.
func refFraction(us string) string {
	for n := len(us); n > 0; n-- {
		if is(us[n-1] != '0') {
			return "." + us[:n]
		}
	}
	return ""
}

// days of interest: ends of years and months, leap days, the ends of the range
var c23days = [][3]int{{2020, 2, 29}, {1970, 1, 1}, {1999, 12, 31}, {2000, 2, 29}, {2100, 3, 1}, {0, 1, 1}, {9999, 12, 31}, {1969, 12, 31}, {2021, 6, 30}}

// zones of interest, in minutes east of UTC
var c23zones = []int{0, 60, -1, -720, 840, 330, -210}

func refZone(min int) string {
	if min == 0 {
		return "Z"
	}
	sign := "+"
	if min < 0 {
		sign, min = "-", -min
	}
	return sign + digits(min/60, 2) + ":" + digits(min%60, 2)
}

// digitsOf is a number of n arbitrary digits and its text.
func digitsOf(name string, n int) (int, string) {
	v, s := 0, ""
	for i := 0; i < n; i++ {
		d := sym.Int(name+strconv.Itoa(i), 0, 9)
		v = v*10 + d
		s += string([]byte{byte('0' + d)})
	}
	return v, s
}

// sixty is a number below 60 and its text.
func sixty(name string) (int, string) {
	a, b := sym.Int(name+"0", 0, 5), sym.Int(name+"1", 0, 9)
	return a*10 + b, string([]byte{byte('0' + a), byte('0' + b)})
}

// clock is an arbitrary time of day and its text.
func clock() (h, mi, s int, text string) {
	a := sym.Split(sym.Int("hour0", 0, 2))
	n := 9
	if a == 2 {
		n = 3
	}
	b := sym.Int("hour1"+string(rune('0'+n)), 0, n)
	mi, mt := sixty("minute")
	s, st := sixty("second")
	return a*10 + b, mi, s, string([]byte{byte('0' + a), byte('0' + b)}) + ":" + mt + ":" + st
}

func c23zone(min int) *time.Location {
	if min == 0 {
		return time.UTC
	}
	return time.FixedZone("", min*60)
}

// c23field is the time stamp of an encoded message.
func c23field(m syslog.Message) string {
	b, err := m.Marshal5424()
	sym.Assert(err == nil, "encoding fails")
	s := string(b)
	const head, tail = "<13>1 ", " h a p m -"
	sym.Assert(len(s) > len(head)+len(tail), "the encoding is too short")
	n := sym.Split(len(s))
	sym.Assert(s[:len(head)] == head && s[n-len(tail):] == tail, "the time stamp is not between the priority and the host")
	return s[len(head) : n-len(tail)]
}

func c23msg(t time.Time) syslog.Message {
	return syslog.CreateWholeMessage(13, t, "h", "a", "p", "m", "")
}

// C23_format: any time of day and nanosecond, for chosen days and zones.
func C23_format() {
	d := c23days[sym.Split(sym.Int("day", 0, len(c23days)-1))]
	z := c23zones[sym.Split(sym.Int("zone", 0, len(c23zones)-1))]
	h, mi, s, hms := clock()
	us, frac := digitsOf("microsecond", 6)
	below, _ := digitsOf("nanosecond", 3)
	want := digits(d[0], 4) + "-" + digits(d[1], 2) + "-" + digits(d[2], 2) + "T" + hms + refFraction(frac) + refZone(z)
	t := time.Date(d[0], time.Month(d[1]), d[2], h, mi, s, us*1000+below, c23zone(z))
	got := c23field(c23msg(t))
	sym.ObsStr("time stamp", got)
	sym.Assert(got == want, "the time stamp is not the RFC 3339 form of the instant")
	sym.Assert(c23field(syslog.EmptyMessage().Priority(13).Host("h").AppName("a").ProcID("p").MsgID("m").Time(t)) == want, "Time does not set the instant")
	sym.Reach("formatted")
}

// C23_parse: what a time stamp is read as.
func C23_parse() {
	d := c23days[sym.Split(sym.Int("day", 0, len(c23days)-1))]
	z := c23zones[sym.Split(sym.Int("zone", 0, len(c23zones)-1))]
	h, mi, s, hms := clock()
	us, frac := digitsOf("microsecond", 6)
	text := digits(d[0], 4) + "-" + digits(d[1], 2) + "-" + digits(d[2], 2) + "T" + hms + refFraction(frac) + refZone(z)
	m, _, err := syslog.Parse([]byte("<13>1 "+text+" h a p m -"), nil, true)
	sym.Assert(err == nil, "the message is refused")
	t := m.TimeStamp()
	sym.Assert(t.Equal(time.Date(d[0], time.Month(d[1]), d[2], h, mi, s, us*1000, c23zone(z))), "parsing gives another instant")
	_, off := t.Zone()
	sym.Assert(off == z*60, "parsing gives another zone")
	sym.Assert(c23field(m.Writable()) == text, "the parsed time stamp is encoded differently")
	sym.Reach("parsed")
}

// elapsed is a number of seconds and one of nanoseconds, and their texts: either part has
// arbitrary low digits, the other one is a fixed number.
func elapsed(last string) (sec int, st string, nsec int, nt string) {
	if sym.Split(sym.Int("part", 0, 1)) == 0 {
		heads := []string{"", "1577923", "-4", last}
		st = heads[sym.Split(sym.Int("seconds", 0, len(heads)-1))]
		sec, _ = strconv.Atoi(st)
		v, t := digitsOf("sec", 2)
		if len(st) > 0 && st[0] == '-' {
			v = -v
		}
		sec, st = sec*100+v, st+t
		nt = []string{"0", "1", "999999999"}[sym.Split(sym.Int("nanoseconds", 0, 2))]
		nsec, _ = strconv.Atoi(nt)
		return
	}
	st = []string{"0", "1599999999", "-1"}[sym.Split(sym.Int("seconds", 0, 2))]
	sec, _ = strconv.Atoi(st)
	heads := []string{"", "1", "000000", "999999", "1500000", "98765432109", "-3", "-2000000"}
	nt = heads[sym.Split(sym.Int("nanoseconds", 0, len(heads)-1))]
	nsec, _ = strconv.Atoi(nt)
	v, t := digitsOf("nsec", 3)
	if nsec < 0 {
		v = -v
	}
	return sec, st, nsec*1000 + v, nt + t
}

// C23_epoch: seconds and nanoseconds since the epoch.
func C23_epoch() {
	sec, st, nsec, nt := elapsed("2534023007")
	got := c23field(c23msg(time.Time{}).Epoch(st, nt))
	want := c23field(c23msg(time.Unix(int64(sec), int64(nsec))))
	sym.Assert(got == want, "Epoch does not set the instant")
	sym.Reach("set")
}

// C23_delta: time elapsed since the system was started.
func C23_delta() {
	sec, st, nsec, nt := elapsed("31622")
	d := c23days[sym.Split(sym.Int("day", 0, 4))]
	boot := time.Date(d[0], time.Month(d[1]), d[2], 23, 59, 58, 999999999, time.UTC)
	got := c23field(c23msg(time.Time{}).Delta(boot, st, nt))
	want := c23field(c23msg(time.Unix(boot.Unix()+int64(sec), 999999999+int64(nsec)).UTC()))
	sym.Assert(got == want, "Delta does not set the instant")
	sym.Reach("set")
}

var c23months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// C23_stamp: a stamp without year.
func C23_stamp() {
	nows := []time.Time{
		time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2021, 1, 31, 23, 59, 0, 0, time.UTC), time.Date(2021, 2, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2024, 7, 1, 12, 0, 0, 0, time.UTC), time.Date(2023, 12, 31, 23, 59, 0, 0, time.UTC), time.Date(2023, 12, 1, 0, 0, 0, 0, time.UTC)}
	now := nows[sym.Split(sym.Int("now", 0, len(nows)-1))]
	sym.SetNow(int(now.Unix()))
	mo := sym.Split(sym.Int("month", 1, 12))
	day := []int{1, 9, 10, 28, 30}[sym.Split(sym.Int("day", 0, 4))]
	sym.Assume(mo != 2 || day < 29)
	_, _, _, hms := clock()
	d := strconv.Itoa(day)
	if day < 10 {
		d = " " + d
	}
	year := now.Year()
	if mo == 12 && now.Month() == 1 {
		year--
	}
	got := c23field(c23msg(time.Time{}).Timestamp(c23months[mo-1] + " " + d + " " + hms))
	sym.ObsStr("time stamp", got)
	sym.Assert(got == digits(year, 4)+"-"+digits(mo, 2)+"-"+digits(day, 2)+"T"+hms+"Z", "Timestamp does not keep the stamp")
	sym.Reach("set")
}

// C23_now: the current time.
func C23_now() {
	now := time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)
	sym.SetNow(int(now.Unix()))
	var m syslog.Message
	switch sym.Split(sym.Int("how", 0, 1)) {
	case 0:
		m = c23msg(time.Time{}).Now()
	case 1:
		m = syslog.CreateMessage("a", 13, "").Host("h").ProcID("p").MsgID("m")
	}
	b, err := m.Marshal5424()
	sym.Assert(err == nil && len(b) > 33 && string(b[6:33]) == "2031-05-06T07:08:09.123456Z", "the time is not the current time")
	sym.Reach("set")
}
