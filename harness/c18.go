package harness

import (
	"strconv"

	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// sdName is the kind of a structured data element of the harness.
type sdName struct{}

func (sdName) String() string { return "k@1" }
func (sdName) IsIANA() bool   { return false }
func (sdName) GetPEN() uint64 { return 1 }

type c18named struct {
	N string `sd5424:"-"`
	V string
}

func (s c18named) String() string { return s.N }
func (c18named) IsIANA() bool     { return false }
func (c18named) GetPEN() uint64   { return 1 }

type c18fields struct {
	sdName `sd5424:"-"`
	Z      string `sd5424:"z"`
	Plain  string
	Skip   string   `sd5424:"-"`
	B      string   `sd5424:"b,mandatory"`
	L      []string `sd5424:"l"`
	P      *string  `sd5424:"p"`
	A      string   `sd5424:"a,other"`
	N      int      `sd5424:"n"`
	T      bool     `sd5424:"t"`
}

type c18map map[string]string

func (c18map) String() string { return "m@1" }
func (c18map) IsIANA() bool   { return false }
func (c18map) GetPEN() uint64 { return 1 }

type c18lists map[string][]string

func (c18lists) String() string { return "m@1" }
func (c18lists) IsIANA() bool   { return false }
func (c18lists) GetPEN() uint64 { return 1 }

type c18ptrs struct {
	sdName `sd5424:"-"`
	L      []*string `sd5424:"l"`
	PP     **string  `sd5424:"pp"`
}

func c18param(name, v string) string { return " " + name + `="` + refEscape(v) + `"` }

func c18check(sd sdata.SDIDLight, want string) {
	b, err := syslog.GenericSD(sd).Marshal5424()
	sym.Assert(err == nil, "the element cannot be encoded")
	sym.ObsStr("element", string(b))
	sym.Assert(string(b) == want, "the element is not its name and its escaped parameters")
	sym.Assert(string(sdata.MarshalSD(sd)) == want, "MarshalSD encodes differently")
	sym.Reach("encoded")
}

// C18_value: any value.
func C18_value() {
	n := []string{"x", "name@32473"}[sym.Split(sym.Int("name", 0, 1))]
	v := upTo("value", sym.Bound("value bytes", 7, 12))
	want := "[" + n
	if v != "" {
		want += c18param("V", v)
	}
	c18check(c18named{n, v}, want+"]")
	if v == "" {
		return
	}
	msg := syslog.CreateWholeMessage(13, stamp, "h", "a", "p", "m", "t").StructuredData(syslog.GenericSD(c18named{n, v}))
	sym.Assert(encoded(msg) == refMsg(13, stampText, "h", "a", "p", "m", want+"]", "t"), "in a message the element is encoded differently")
}

// C18_unescape: undoing the escapes gives the value back.
func C18_unescape() {
	v := sym.String("value", sym.Split(sym.Int("value.len", 1, sym.Bound("value bytes", 6, 9))))
	refEscape(v)
	b, err := syslog.GenericSD(c18named{"x", v}).Marshal5424()
	sym.Assert(err == nil, "the element cannot be encoded")
	const head, tail = `[x V="`, `"]`
	s := string(b)
	sym.Assert(len(s) >= len(head)+len(tail)+len(v) && s[:len(head)] == head && s[len(s)-len(tail):] == tail, "the element is not its name and its parameter")
	s = s[len(head) : len(s)-len(tail)]
	back := ""
	for i := 0; i < len(s); i++ {
		if is(s[i] == '\\') {
			i++
			sym.Assert(i < len(s), "the closing quote is escaped")
			sym.Assert(s[i] == '"' || s[i] == '\\' || s[i] == ']', "a byte is escaped without need")
		} else {
			sym.Assert(s[i] != '"' && s[i] != ']', "a quote or bracket is not escaped")
		}
		back += s[i : i+1]
	}
	sym.Assert(back == v, "undoing the escapes gives another value")
	sym.Reach("undone")
}

// C18_fields: the fields of a struct.
func C18_fields() {
	n := sym.Bound("bytes per value", 1, 2)
	e := c18fields{Skip: "skipped"}
	want := "[k@1"
	text := func(name, key string) string {
		v := upTo(key, n)
		if v != "" {
			want += c18param(name, v)
		}
		return v
	}
	e.Z = text("z", "z")
	e.Plain = text("Plain", "plain")
	e.B = sym.String("b", 1)
	want += c18param("b", e.B)
	for i := sym.Split(sym.Int("list", -1, 2)); i >= 0; i-- {
		if e.L == nil {
			e.L = []string{}
		}
		if i == 0 {
			break
		}
		v := sym.String("l"+strconv.Itoa(i), i%2)
		e.L = append(e.L, v)
		want += c18param("l", v)
	}
	if bit("pointer") {
		v := upTo("p", 1)
		e.P = &v
		want += c18param("p", v)
	}
	e.A = []string{"", "x y"}[sym.Split(sym.Int("a", 0, 1))]
	if e.A != "" {
		want += c18param("a", e.A)
	}
	e.N = []int{0, 7, -120}[sym.Split(sym.Int("n", 0, 2))]
	want += c18param("n", strconv.Itoa(e.N))
	e.T = bit("t")
	want += c18param("t", strconv.FormatBool(e.T))
	c18check(e, want+"]")
}

var c18keys = []string{"a", "b", "aa", "B", "a1"}
var c18sorted = []int{3, 0, 4, 2, 1}

// C18_map: maps of strings.
func C18_map() {
	m := c18map{}
	n := sym.Bound("bytes per value", 1, 2)
	var vals [5]string
	var has [5]bool
	start := sym.Split(sym.Int("first", 0, 4))
	for i := 0; i < 5; i++ {
		k := (start + i*2) % 5
		if !bit("has" + strconv.Itoa(k)) {
			continue
		}
		has[k] = true
		vals[k] = c18keys[k]
		if k%2 == 0 {
			vals[k] = upTo("v"+strconv.Itoa(k), n)
		}
		m[c18keys[k]] = vals[k]
	}
	want := "[m@1"
	for _, k := range c18sorted {
		if has[k] {
			want += c18param(c18keys[k], vals[k])
		}
	}
	c18check(m, want+"]")
}

// C18_lists: maps of lists.
func C18_lists() {
	m := c18lists{}
	var parts [5]string
	for k := 4; k >= 0; k-- {
		c := sym.Split(sym.Int("count"+strconv.Itoa(k), -1, 2))
		if c < 0 || c == 2 && k > 1 {
			continue
		}
		var l []string
		for i := 0; i < c; i++ {
			v := sym.String("v"+strconv.Itoa(k)+strconv.Itoa(i), 1-k%2)
			l = append(l, v)
			parts[k] += c18param(c18keys[k], v)
		}
		m[c18keys[k]] = l
	}
	want := "[m@1"
	for _, k := range c18sorted {
		want += parts[k]
	}
	c18check(m, want+"]")
}

// C18_pointers: lists of pointers and pointers to pointers.
func C18_pointers() {
	e := c18ptrs{}
	want := "[k@1"
	for i := 0; i < 3; i++ {
		id := strconv.Itoa(i)
		if bit("nil" + id) {
			e.L = append(e.L, nil)
			continue
		}
		v := upTo("v"+id, 1)
		e.L = append(e.L, &v)
		want += c18param("l", v)
	}
	k := sym.Split(sym.Int("pp", 0, 2))
	var p *string
	if k > 0 {
		e.PP = &p
	}
	if k > 1 {
		v := upTo("w", 2)
		p = &v
		want += c18param("pp", v)
	}
	c18check(e, want+"]")
}
