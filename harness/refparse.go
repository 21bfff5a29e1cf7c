package harness

import (
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// The reference grammar of structured data and of messages, on strings whose relevant bytes are arbitrary. Every
// decision that the structure depends on is split, so that a path has a definite structure.

type refParam struct{ name, value string }

type refElem struct {
	text   string // as written
	name   string
	params []refParam
}

// canonical is the element with single spaces.
func (e refElem) canonical() string {
	s := "[" + e.name
	for _, p := range e.params {
		s += " " + p.name + `="` + p.value + `"`
	}
	return s + "]"
}

// is splits on a condition.
func is(c bool) bool {
	k := 0
	if c {
		k = 1
	}
	return sym.Split(k) == 1
}

// inName tells whether a byte may be part of a name.
func inName(c byte) bool {
	return is(c > ' ' && c != 127 && c != '=' && c != '"' && c != ']')
}

// end of a value: 0 no, 1 the quote, 2 an unescaped bracket, 3 backslash
func inValue(c byte) int {
	k := 0
	switch c {
	case '"':
		k = 1
	case ']':
		k = 2
	case '\\':
		k = 3
	}
	return sym.Split(k)
}

// refElement reads the element at the start of s; n is 0 if there is none.
func refElement(s string) (e refElem, n int) {
	if len(s) == 0 || !is(s[0] == '[') {
		return e, 0
	}
	i := 1
	for i < len(s) && inName(s[i]) {
		i++
	}
	if i == 1 {
		return e, 0
	}
	e.name = s[1:i]
	for i < len(s) {
		if is(s[i] == ']') {
			e.text = s[:i+1]
			return e, i + 1
		}
		if !is(s[i] == ' ') {
			return e, 0
		}
		for i < len(s) && is(s[i] == ' ') {
			i++
		}
		b := i
		for i < len(s) && inName(s[i]) {
			i++
		}
		if i == b || i+1 >= len(s) || !is(s[i] == '=') || !is(s[i+1] == '"') {
			return e, 0
		}
		p := refParam{name: s[b:i]}
		i += 2
		b = i
		for {
			if i >= len(s) {
				return e, 0
			}
			k := inValue(s[i])
			if k == 1 {
				break
			}
			if k == 2 {
				return e, 0
			}
			if k == 3 {
				i++
			}
			i++
		}
		p.value = s[b:i]
		e.params = append(e.params, p)
		i++
	}
	return e, 0
}

// refTail reads what follows the header fields: structured data and text.
func refTail(s string) (elems []refElem, text string, ok bool) {
	i := 0
	if len(s) > 0 && is(s[0] == '-') {
		i = 1
	} else {
		for {
			e, n := refElement(s[i:])
			if n == 0 {
				break
			}
			elems = append(elems, e)
			i += n
			if i == len(s) || !is(s[i] == '[') {
				break
			}
			if _, n := refElement(s[i:]); n == 0 {
				return nil, "", false
			}
		}
		if len(elems) == 0 {
			return nil, "", false
		}
	}
	if i == len(s) {
		return elems, "", true
	}
	if !is(s[i] == ' ') {
		return nil, "", false
	}
	return elems, s[i+1:], true
}

// refFrame isolates the first frame of s. whole: there is a complete one; bad: the length header is unusable.
func refFrame(t syslog.Transport, s string) (frame, rest string, whole, bad bool) {
	switch t {
	case nil:
		return s, "", true, false
	case syslog.TransportRFC5425:
		i, n := 0, 0
		for i < len(s) && is(s[i] >= '0' && s[i] <= '9') {
			if n < 1000 {
				n = n*10 + sym.Split(int(s[i]-'0'))
			}
			i++
		}
		if i == len(s) {
			return s, "", false, false
		}
		if i == 0 || !is(s[i] == ' ') {
			return "", "", false, true
		}
		i++
		if len(s)-i < n {
			return s[i:], "", false, false
		}
		return s[i : i+n], s[i+n:], true, false
	}
	end := byte(0)
	if t == syslog.TransportLFEnded {
		end = '\n'
	}
	for i := 0; i < len(s); i++ {
		if is(s[i] == end) {
			return s[:i], s[i+1:], true, false
		}
	}
	return s, "", false, false
}

// refParse is what Parse must make of s.
//
// 0: a message, 1: an error, 2: the frame is incomplete
func refParse(t syslog.Transport, s string, eof bool) (what int, frame, rest string) {
	frame, rest, whole, bad := refFrame(t, s)
	if bad || len(s) > 0 && !whole && eof && t != syslog.TransportZeroEnded {
		return 1, "", ""
	}
	if len(s) == 0 && t != nil || !whole && !eof {
		return 2, "", ""
	}
	if _, _, _, ok := refPacket(frame); !ok {
		return 1, "", rest
	}
	return 0, frame, rest
}
