package harness

import (
	"errors"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

type c19any struct {
	sdName `sd5424:"-"`
	V      interface{} `sd5424:"v"`
}

type c19anymap map[string]interface{}

func (c19anymap) String() string { return "k@1" }
func (c19anymap) IsIANA() bool   { return false }
func (c19anymap) GetPEN() uint64 { return 1 }

type c19strmap map[string]string

func (c19strmap) String() string { return "k@1" }
func (c19strmap) IsIANA() bool   { return false }
func (c19strmap) GetPEN() uint64 { return 1 }

type c19intmap map[int]string

func (c19intmap) String() string { return "k@1" }
func (c19intmap) IsIANA() bool   { return false }
func (c19intmap) GetPEN() uint64 { return 1 }

type c19chan struct {
	sdName `sd5424:"-"`
	V      chan int `sd5424:"v"`
}

type c19func struct {
	sdName `sd5424:"-"`
	V      func() `sd5424:"v"`
}

type c19struct struct {
	sdName `sd5424:"-"`
	V      struct{ X string } `sd5424:"v"`
}

type c19mapfield struct {
	sdName `sd5424:"-"`
	V      map[string]string `sd5424:"v"`
}

type c19array struct {
	sdName `sd5424:"-"`
	V      [2]string `sd5424:"v"`
}

type c19emptyarray struct {
	sdName `sd5424:"-"`
	V      [0]string `sd5424:"v"`
	W      string
}

type c19lists struct {
	sdName `sd5424:"-"`
	V      [][]string `sd5424:"v"`
	A      [][1]string
}

type c19mandatory struct {
	sdName `sd5424:"-"`
	V      string  `sd5424:"v,mandatory"`
	P      *string `sd5424:"p,mandatory"`
	W      string
}

type c19hidden struct {
	sdName `sd5424:"-"`
	hidden string
	W      string
}

type c19hiddenint struct {
	sdName `sd5424:"-"`
	n      int
}

type c19anylist struct {
	sdName `sd5424:"-"`
	V      []interface{} `sd5424:"v"`
}

type c19member struct {
	sdName `sd5424:"-"`
	V      sdata.StructuredData   `sd5424:"v"`
	L      []sdata.StructuredData `sd5424:"l"`
	W      string
}

type c19own struct{ fail bool }

var errOwn = errors.New("own")

func (*c19own) SDID() sdata.SDID { return nil }
func (o *c19own) Marshal5424() ([]byte, error) {
	if o.fail {
		return nil, errOwn
	}
	return []byte("[k@1]"), nil
}
func (*c19own) String() string { return "k@1" }
func (*c19own) IsIANA() bool   { return false }
func (*c19own) GetPEN() uint64 { return 1 }

type c19ownmember struct {
	sdName `sd5424:"-"`
	V      *c19own   `sd5424:"v"`
	L      []*c19own `sd5424:"l"`
}

type c19scalar string

func (c19scalar) String() string { return "k@1" }
func (c19scalar) IsIANA() bool   { return false }
func (c19scalar) GetPEN() uint64 { return 1 }

type c19slice []string

func (c19slice) String() string { return "k@1" }
func (c19slice) IsIANA() bool   { return false }
func (c19slice) GetPEN() uint64 { return 1 }

type c19rootarray [1]string

func (c19rootarray) String() string { return "k@1" }
func (c19rootarray) IsIANA() bool   { return false }
func (c19rootarray) GetPEN() uint64 { return 1 }

type c19pointer struct{ V string }

func (*c19pointer) String() string { return "k@1" }
func (*c19pointer) IsIANA() bool   { return false }
func (*c19pointer) GetPEN() uint64 { return 1 }

type c19rootfunc func()

func (c19rootfunc) String() string { return "k@1" }
func (c19rootfunc) IsIANA() bool   { return false }
func (c19rootfunc) GetPEN() uint64 { return 1 }

// c19check encodes sd alone, through MarshalSD and in a message.
func c19check(sd sdata.SDIDLight) {
	b, err := syslog.GenericSD(sd).Marshal5424()
	m, merr := syslog.CreateWholeMessage(13, stamp, "h", "a", "p", "m", "t").
		StructuredData(syslog.GenericSD(exSD{A: "x"}), syslog.GenericSD(sd), syslog.GenericSD(exSD{A: "y"})).Marshal5424()
	if err != nil {
		sym.Assert(len(b) == 0, "bytes come with the error")
		sym.Assert(merr != nil && len(m) == 0, "a message is encoded without one of its elements")
		sym.Reach("error")
		return
	}
	sym.ObsStr("element", string(b))
	s := string(b)
	sym.Assert(len(s) >= 5 && s[:4] == "[k@1" && s[len(s)-1] == ']', "neither an error nor a complete element")
	_, n := refElement(s)
	sym.Assert(n == len(s), "the encoding is not one element")
	sym.Assert(merr == nil, "the message is refused although the element is not")
	sym.Assert(string(m) == refMsg(13, stampText, "h", "a", "p", "m", `[ex@32473 a="x"]`+s+`[ex@32473 a="y"]`, "t"), "the element is different in a message")
	sym.Reach("encoded")
}

// anyValue is a value of any kind.
func anyValue(id string) interface{} {
	s := upTo("s"+id, 2)
	var np *string
	var nm map[string]string
	var no *c19own
	vals := []interface{}{nil, s, &s, np, 5, true, 1.5, struct{}{}, nm, map[string]string{"a": s}, []string{s, "x"}, [1]string{s},
		make(chan int), func() {}, complex(1, 2), []interface{}{s, 3, nil}, &c19own{}, &c19own{fail: true}, no, errOwn, uint8(200), int64(-5), []byte(s),
		c18named{"n", s}, []error{errOwn, nil}}
	return vals[sym.Split(sym.Int("kind"+id, 0, len(vals)-1))]
}

// C19_members: members of interface types.
func C19_members() {
	switch sym.Split(sym.Int("in", 0, 2)) {
	case 0:
		c19check(c19any{V: anyValue("1")})
	case 1:
		c19check(c19anymap{"a": "x", "b": anyValue("1"), "c": nil})
	case 2:
		c19check(c19anylist{V: []interface{}{"x", anyValue("1")}})
	}
}

// C19_types: members of other types.
func C19_types() {
	s := upTo("s", 2)
	full := bit("full")
	k := sym.Split(sym.Int("type", 0, 12))
	switch k {
	case 0:
		v := c19chan{}
		if full {
			v.V = make(chan int)
		}
		c19check(v)
	case 1:
		v := c19func{}
		if full {
			v.V = func() {}
		}
		c19check(v)
	case 2:
		v := c19struct{}
		v.V.X = s
		c19check(v)
	case 3:
		v := c19mapfield{}
		if full {
			v.V = map[string]string{"a": s}
		}
		c19check(v)
	case 4:
		c19check(c19array{V: [2]string{s, "x"}})
	case 5:
		c19check(c19emptyarray{W: s})
	case 6:
		v := c19lists{}
		if full {
			v.V = [][]string{{s}, nil, {}, {"a", "b"}}
		} else {
			v.A = [][1]string{{s}}
		}
		c19check(v)
	case 7:
		v := c19mandatory{V: s, W: "w"}
		if full {
			v.P = &s
		}
		c19check(v)
	case 8:
		v := c19hidden{W: "w"}
		if full {
			v.hidden = s
		}
		c19check(v)
	case 9:
		c19check(c19hiddenint{n: 1})
	case 10:
		v := c19member{W: s}
		own := &c19own{fail: bit("fail")}
		switch sym.Split(sym.Int("member", 0, 4)) {
		case 0:
			v.V = own
		case 1:
			v.L = []sdata.StructuredData{own, nil}
		case 2:
			v.L = []sdata.StructuredData{nil}
		case 3:
			v.L = []sdata.StructuredData{(*c19own)(nil), own}
		}
		c19check(v)
	case 11:
		v := c19ownmember{}
		own := &c19own{fail: bit("fail")}
		switch sym.Split(sym.Int("member", 0, 2)) {
		case 0:
			v.V = own
		case 1:
			v.L = []*c19own{nil, own}
		}
		c19check(v)
	case 12:
		c19check(c18ptrs{L: []*string{nil, &s}})
	}
}

// C19_roots: values that are no struct and no map, and nil ones.
func C19_roots() {
	s := upTo("s", 2)
	var np *c19pointer
	var nf c19rootfunc
	var nown *c19own
	var nx *exSD
	roots := []sdata.SDIDLight{c19strmap(nil), c19anymap(nil), c19intmap(nil), c19intmap{1: s}, c19scalar(s), c19slice(nil), c19slice{s}, c19rootarray{s},
		np, &c19pointer{s}, nf, c19rootfunc(func() {}), nown, &c19own{}, &c19own{fail: true}, nx, &exSD{A: s}, nil, c19strmap{"a": s}, sdName{}}
	c19check(roots[sym.Split(sym.Int("root", 0, len(roots)-1))])
}

// C19_marshalsd: MarshalSD gives nothing where the element cannot be encoded.
func C19_marshalsd() {
	s := upTo("s", 2)
	vals := []interface{}{nil, s, 5, c19hidden{hidden: s}, c19mandatory{W: s}, c18map(nil), struct{ A interface{} }{s}, map[string]string{"a": s}, &s, (*c19own)(nil), []string{s}}
	b := string(sdata.MarshalSD(vals[sym.Split(sym.Int("value", 0, len(vals)-1))]))
	sym.Assert(b == "" || b[0] == '[' && b[len(b)-1] == ']', "neither nothing nor a complete element")
	sym.Reach("returned")
}
