package harness

import (
	"verif/harness/sym"

	"github.com/nathanaelle/syslog5424/v2/sdata"
	_ "github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

func c20check(b string) {
	e, n := refElement(b)
	want := n == len(b) && n > 0
	sd, ok := sdata.Parse([]byte(b))
	sym.Assert(ok == want, "an element is accepted or refused against the grammar")
	if !ok {
		sym.Reach("refused")
		return
	}
	enc, err := sd.Marshal5424()
	sym.Assert(err == nil, "an accepted element cannot be encoded")
	sym.ObsStr("encoded", string(enc))
	sym.Assert(string(enc) == e.canonical(), "encoding an accepted element gives another element")
	sym.Reach("accepted")
}

// C20_bytes: every short byte string.
func C20_bytes() {
	c20check(upTo("element", sym.Bound("element bytes", 7, 9)))
}

// C20_param: an element with one parameter, arbitrary around and inside the parts.
func C20_param() {
	n := sym.Bound("bytes per part", 2, 3)
	c20check("[" + upTo("id", n) + " " + upTo("name", n) + `="` + upTo("value", n+1) + `"` + upTo("end", 1) + "]")
}

// C20_second: what may follow a first parameter.
func C20_second() {
	c20check(`[a b="c"` + upTo("more", sym.Bound("bytes", 6, 8)) + "]")
}

// C20_value: values.
func C20_value() {
	c20check(`[id@1 k="` + upTo("value", sym.Bound("value bytes", 5, 8)) + `"]`)
}

// C20_tokens: the token functions on any input return normally.
func C20_tokens() {
	b := []byte(upTo("data", sym.Bound("bytes", 5, 7)))
	var head string
	var ret []byte
	var err error
	which := sym.Split(sym.Int("which", 0, 3))
	switch which {
	case 0:
		head, ret, err = sdata.NextHeader(b)
	case 1:
		ret, err = sdata.NextNonSpace(b)
	case 2:
		head, ret, err = sdata.NextSDName(b)
	case 3:
		head, ret, err = sdata.NextSDValue(b)
	}
	sym.Assert(err != nil || len(head)+len(ret) <= len(b), "a token function makes bytes up")
	sym.Reach("returned")
}

// C20_unmarshal: UnmarshalSD with odd arguments.
func C20_unmarshal() {
	b := []byte(upTo("data", 2))
	var p *int
	sym.Assert(sdata.UnmarshalSD(b, nil) != nil, "UnmarshalSD into nil succeeds")
	sym.Assert(sdata.UnmarshalSD(b, p) != nil, "UnmarshalSD into a nil pointer succeeds")
	sym.Assert(sdata.UnmarshalSD(b, 5) != nil, "UnmarshalSD into a value that is not a pointer succeeds")
	sym.Reach("returned")
}
