package harness

import (
	"strconv"

	"verif/harness/sym"

	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// kind is a kind of structured data of the harness: it recognises what has its letter second.
type kind struct {
	name   string
	letter byte
	live   *bool
	yield  bool
}

// kindSD is what a kind makes of an element.
type kindSD struct {
	of   kind
	data string
}

func (k kind) String() string               { return k.name }
func (k kind) IsIANA() bool                 { return false }
func (k kind) GetPEN() uint64               { return 32473 }
func (k kind) MarshalText() ([]byte, error) { return []byte(k.name), nil }
func (k kind) Found(data []byte) (sdata.StructuredData, bool) {
	if k.yield {
		sym.Yield()
	}
	if !*k.live || len(data) < 2 || data[1] != k.letter {
		return nil, false
	}
	return kindSD{k, string(data)}, true
}

func (s kindSD) SDID() sdata.SDID             { return s.of }
func (s kindSD) Marshal5424() ([]byte, error) { return []byte("[own " + s.data + "]"), nil }

var runs27 int

// kinds27 are kinds that this run alone uses; the first two have the same name.
func kinds27(yield bool) ([]kind, func()) {
	runs27++
	live := true
	n := strconv.Itoa(runs27)
	return []kind{
		{"one" + n, 'a', &live, yield}, {"one" + n, 'b', &live, yield}, {"two" + n, 'c', &live, yield}, {"three" + n, 'd', &live, yield},
	}, func() { live = false }
}

// c27decoded: the element is decoded by the registered kind with its letter, or else generically.
func c27decoded(known map[string]kind, data string) {
	var own *kind
	for _, k := range known {
		if len(data) >= 2 && is(data[1] == k.letter) {
			own = &k
			break
		}
	}
	c27result(own, data)
}

func c27result(own *kind, data string) {
	if own == nil {
		e, n := refElement(data)
		ok := n == len(data) && n > 0
		sd, found := sdata.Parse([]byte(data))
		sym.Assert(found == ok, "an element of no registered kind is accepted or refused against the grammar")
		if ok {
			_, isKind := sd.(kindSD)
			sym.Assert(!isKind, "an element is decoded by a kind that does not recognise it")
			enc, err := sd.Marshal5424()
			sym.Assert(err == nil && string(enc) == e.canonical(), "an element of no registered kind is not decoded generically")
			sym.Reach("generic")
		}
		return
	}
	sd, found := sdata.Parse([]byte(data))
	sym.Assert(found, "an element of a registered kind is refused")
	k, isKind := sd.(kindSD)
	sym.Assert(isKind, "an element of a registered kind is decoded generically")
	sym.Assert(k.of == *own, "an element is decoded by another kind than the first registered under the name")
	sym.Assert(k.data == data, "the decoder is given something else")
	sym.Reach("own")
}

// C27_history: registrations and decodings in any order.
func C27_history() {
	kinds, done := kinds27(false)
	known := map[string]kind{}
	for i := 0; i < sym.Bound("operations", 3, 4); i++ {
		id := strconv.Itoa(i)
		op := sym.Split(sym.Int("operation"+id, 0, 6))
		switch {
		case op < 4:
			k := kinds[op]
			sym.Assert(sdata.Register(k) == sdata.SDID(k), "Register returns something else")
			if _, taken := known[k.name]; !taken {
				known[k.name] = k
			}
		case op == 4:
			sdata.RegisterGroup(kinds[1], kinds[0], kinds[2])
			if _, taken := known[kinds[1].name]; !taken {
				known[kinds[1].name] = kinds[1]
			}
			if _, taken := known[kinds[2].name]; !taken {
				known[kinds[2].name] = kinds[2]
			}
		case op == 5:
			sdata.RegisterGroup()
		default:
			c27decoded(known, "["+string(rune('a'+sym.Split(sym.Int("element"+id, 0, 4))))+"]")
		}
	}
	c27decoded(known, []string{"[a]", "[b]", "[c x=\"y\"]", "[d]", "[e]", "[e"}[sym.Split(sym.Int("last", 0, 5))])
	done()
}

// C27_bytes: with kinds registered, any short byte string.
func C27_bytes() {
	kinds, done := kinds27(false)
	known := map[string]kind{}
	for _, k := range kinds[1:] {
		sdata.Register(k)
		known[k.name] = k
	}
	n := sym.Split(sym.Int("registered", 0, 1))
	if n > 0 {
		sdata.Register(kinds[0])
	}
	c27decoded(known, upTo("data", sym.Bound("bytes", 5, 7)))
	done()
}

// C27_builtin: a kind registered by the library stays, and is decoded as such among others.
func C27_builtin() {
	kinds, done := kinds27(false)
	before := sym.Split(sym.Int("others", 0, 3))
	for _, k := range kinds[:before] {
		sdata.Register(k)
	}
	usurper := kind{timequality.TQ.String(), 't', kinds[0].live, false}
	if bit("usurper") {
		if bit("group") {
			sdata.RegisterGroup(usurper)
		} else {
			sdata.Register(usurper)
		}
	}
	known, synced := bit("known"), bit("synced")
	sym.Assume(known || !synced)
	sd, ok := sdata.Parse([]byte(`[timeQuality tzKnown="` + digit(known) + `" isSynced="` + digit(synced) + `"]`))
	sym.Assert(ok, "an element of a registered kind is refused")
	tq, ok := sd.(timequality.TimeQuality)
	sym.Assert(ok, "an element of a registered kind is not decoded by it")
	sym.Assert(tq.TzKnown == known && tq.IsSynced == synced, "other values are decoded")
	done()
	sym.Reach("decoded")
}

func digit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// C27_generic: a kind made from a plain identifier, registered.
func C27_generic() {
	sdata.Register(sdata.GenericSD(demoSD{}).SDID())
	if bit("again") {
		sdata.Register(sdata.GenericSD(demoSD{}).SDID())
	}
	rest := upTo("rest", sym.Bound("bytes", 3, 5))
	data := "[demo@1" + rest + "]"
	e, n := refElement(data)
	ok := n == len(data)
	sd, found := sdata.Parse([]byte(data))
	sym.Assert(found == ok, "an element is accepted or refused against the grammar")
	if !ok {
		return
	}
	if rest == "" {
		sym.Assert(sd.SDID().String() == "demo@1", "an element of a registered kind is decoded generically")
		sym.Reach("own")
	}
	enc, err := sd.Marshal5424()
	sym.Assert(err == nil && string(enc) == e.canonical(), "the element is changed")
}

// C27_at_once: two goroutines register and decode at once, under every schedule.
func C27_at_once() {
	kinds, done := kinds27(true)
	group := bit("group")
	ready := make(chan bool)
	for i := 0; i < 2; i++ {
		mine := kinds[i+2]
		go func() {
			if group {
				sdata.RegisterGroup(mine)
			} else {
				sdata.Register(mine)
			}
			c27result(&mine, "["+string(rune(mine.letter))+"]")
			ready <- true
		}()
	}
	c27result(nil, "[e]")
	<-ready
	<-ready
	c27result(&kinds[2], "[c]")
	c27result(&kinds[3], "[d]")
	done()
}

// C27_same_name: two goroutines register under one name, one of them is kept.
func C27_same_name() {
	kinds, done := kinds27(false)
	ready := make(chan bool)
	for i := 0; i < 2; i++ {
		mine := kinds[i]
		go func() {
			sdata.Register(mine)
			ready <- true
		}()
	}
	<-ready
	<-ready
	sdA, okA := sdata.Parse([]byte("[a]"))
	sdB, okB := sdata.Parse([]byte("[b]"))
	sym.Assert(okA && okB, "an element is refused")
	_, isA := sdA.(kindSD)
	_, isB := sdB.(kindSD)
	sym.Assert(isA != isB, "not exactly one of two kinds with the same name is kept")
	sdata.Register(kinds[0])
	sdata.Register(kinds[1])
	sdA, _ = sdata.Parse([]byte("[a]"))
	_, againA := sdA.(kindSD)
	sym.Assert(isA == againA, "another registration replaces a kind")
	done()
	sym.Reach("kept")
}
