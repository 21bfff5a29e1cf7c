package harness

import (
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// C01_encode: every priority of 0..255 has exactly one wire form, which decodes to it.
func C01_encode() {
	p := sym.Int("prio", 0, 255)
	d, err := syslog.Priority(p).Marshal5424()
	sym.Assert(err == nil, "encoding a priority fails")
	sym.Reach("encoded")
	want := []byte{'<'}
	if p >= 100 {
		want = append(want, byte('0'+p/100))
	}
	if p >= 10 {
		want = append(want, byte('0'+p/10%10))
	}
	want = append(want, byte('0'+p%10), '>', '1')
	sym.ObsStr("wire", string(d))
	sym.Assert(string(d) == string(want), "wire form is not <decimal>1")
	q := syslog.Priority(sym.Int("old", 0, 999))
	err = q.Unmarshal5424(d)
	sym.Assert(err == nil, "wire form of a priority is not decoded")
	sym.Assert(int(q) == p, "decoding the wire form gives another priority")
}

// C01_decode: an arbitrary byte string is accepted exactly if it has the wire form.
func C01_decode() {
	d := sym.BytesUpTo("data", sym.Bound("data bytes", 9, 14))
	in := string(d)
	ok, v := refPrio(in)
	old := sym.Int("old", 0, 999)
	q := syslog.Priority(old)
	err := q.Unmarshal5424(d)
	sym.ObsBool("accepted", err == nil)
	sym.ObsInt("value", int(q))
	if ok {
		sym.Reach("accepted")
		sym.Assert(err == nil, "a wire form is refused")
		sym.Assert(int(q) == v, "decoded value is not the decimal value")
	} else {
		sym.Reach("refused")
		sym.Assert(err != nil, "a text that is no wire form is accepted")
		sym.Assert(int(q) == old, "a refused text changes the priority")
	}
	sym.Assert(string(d) == in, "decoding modifies its input")
}

// refPrio: '<' 1..3 digits '>1'
func refPrio(s string) (bool, int) {
	n := len(s)
	if n < 4 || n > 6 {
		return false, 0
	}
	if s[0] != '<' || s[n-2] != '>' || s[n-1] != '1' {
		return false, 0
	}
	v := 0
	for i := 1; i < n-2; i++ {
		if s[i] < '0' || s[i] > '9' {
			return false, 0
		}
		v = v*10 + int(s[i]-'0')
	}
	return true, v
}
