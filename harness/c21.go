package harness

import (
	"math"
	"strconv"

	"verif/harness/sym"

	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// bit is an arbitrary boolean, each value on its own.
func bit(name string) bool { return is(sym.Bool(name)) }

// accuracy is an arbitrary accuracy, or nil, and its text.
func accuracy() (*int, string) {
	special := []int{0, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 99999999999999999, -99999999999999999,
		999999999999999, 1000000000000000, 999999999999999999, 1000000000000000000, math.MaxInt32, math.MinInt32, math.MaxUint32}
	k := sym.Split(sym.Int("accuracy", 0, len(special)+1))
	switch {
	case k == 0:
		return nil, ""
	case k <= len(special):
		v := special[k-1]
		return &v, strconv.Itoa(v)
	}
	n := sym.Split(sym.Int("digits", 1, sym.Bound("digits of the accuracy", 5, 9)))
	v, s := sym.Int("first", 1, 9), ""
	s = string([]byte{byte('0' + v)})
	for i := 1; i < n; i++ {
		d := sym.Int("digit"+strconv.Itoa(i), 0, 9)
		v = v*10 + d
		s += string([]byte{byte('0' + d)})
	}
	if bit("negative") {
		v, s = -v, "-"+s
	}
	return &v, s
}

func sameTQ(a, b timequality.TimeQuality) bool {
	if a.TzKnown != b.TzKnown || a.IsSynced != b.IsSynced || (a.SyncAccuracy == nil) != (b.SyncAccuracy == nil) {
		return false
	}
	return a.SyncAccuracy == nil || *a.SyncAccuracy == *b.SyncAccuracy
}

// C21_encode: any value.
func C21_encode() {
	acc, text := accuracy()
	tq := timequality.TimeQuality{TzKnown: bit("tzKnown"), IsSynced: bit("isSynced"), SyncAccuracy: acc}
	valid := (!tq.IsSynced || tq.TzKnown) && (acc == nil || tq.IsSynced)
	sym.Assert(tq.IsValid() == valid, "IsValid is wrong")
	b, err := tq.Marshal5424()
	sym.Assert((err == nil) == valid, "a value is encoded although it is inconsistent, or refused although it is not")
	list, lerr := sdata.EmptyList().Add(tq).Marshal5424()
	sym.Assert((lerr == nil) == valid && string(list) == string(b), "in a list the value is encoded differently")
	if !valid {
		sym.Assert(len(b) == 0, "bytes come with the error")
		sym.Reach("refused")
		return
	}
	want := "[timeQuality"
	if tq.TzKnown {
		want += ` tzKnown="1"`
	}
	if tq.IsSynced {
		want += ` isSynced="1"`
	}
	if acc != nil {
		want += ` syncAccuracy="` + text + `"`
	}
	sym.Assert(string(b) == want+"]", "the encoding is not the parameters of the value")
	back, ok := sdata.Parse(b)
	sym.Assert(ok, "the encoding is refused")
	got, ok := back.(timequality.TimeQuality)
	sym.Assert(ok, "the encoding is not decoded as a time quality")
	sym.Assert(sameTQ(got, tq), "decoding the encoding gives another value")
	sym.Reach("round trip")
}

// refInt reads an optional sign and decimal digits.
func refInt(s string) (v int, ok bool) {
	i := 0
	neg := false
	if len(s) > 0 {
		if is(s[0] == '-') {
			neg, i = true, 1
		} else if is(s[0] == '+') {
			i = 1
		}
	}
	if i == len(s) {
		return 0, false
	}
	for ; i < len(s); i++ {
		if !is(s[i] >= '0' && s[i] <= '9') {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// c21decode decodes s, which must give what its parameters say or nothing.
func c21decode(s string) {
	e, n := refElement(s)
	whole := n == len(s) && n > 0 && e.name == "timeQuality"
	var want timequality.TimeQuality
	known := whole
	seen := [3]bool{}
	for _, p := range e.params {
		if !known {
			break
		}
		k := -1
		for i, name := range []string{"tzKnown", "isSynced", "syncAccuracy"} {
			if is(p.name == name) {
				k = i
			}
		}
		if k < 0 || seen[k] {
			known = false
			break
		}
		seen[k] = true
		switch k {
		case 2:
			v, ok := refInt(p.value)
			known = ok
			want.SyncAccuracy = &v
		default:
			on := is(p.value == "1")
			if !on && !is(p.value == "0") {
				known = false
			}
			if k == 0 {
				want.TzKnown = on
			} else {
				want.IsSynced = on
			}
		}
	}
	again := false
	for i := range e.params {
		for j := 0; j < i; j++ {
			again = again || is(e.params[i].name == e.params[j].name)
		}
	}
	sd, ok := timequality.TQ.Found([]byte(s))
	if !ok {
		sym.Reach("refused")
		return
	}
	got, isTQ := sd.(timequality.TimeQuality)
	sym.Assert(isTQ, "the value is of another kind")
	if got.SyncAccuracy != nil {
		sym.ObsInt("accuracy", *got.SyncAccuracy)
	}
	sym.Assert((!got.IsSynced || got.TzKnown) && (got.SyncAccuracy == nil || got.IsSynced), "an inconsistent value is decoded")
	sym.Assert(whole, "something that is no timeQuality element is accepted")
	if !again {
		sym.Assert(known, "an element with unknown or malformed parameters is accepted")
		sym.Assert(sameTQ(got, want), "the decoded value is not what the parameters say")
	}
	sym.Reach("decoded")
}

// C21_any: any bytes after the name.
func C21_any() {
	c21decode("[timeQuality" + upTo("tail", sym.Bound("bytes", 5, 7)))
}

// C21_first: any bytes.
func C21_first() {
	c21decode(upTo("data", sym.Bound("bytes", 5, 7)))
}

// c21param is a parameter of a known name or an arbitrary one.
func c21param(id string, n int) string {
	names := []string{"tzKnown", "isSynced", "syncAccuracy", "x", ""}
	k := sym.Split(sym.Int("name"+id, 0, len(names)))
	if k == len(names) {
		return ""
	}
	name := names[k]
	if name == "" {
		name = sym.String("other"+id, 7)
	}
	return " " + name + `="` + upTo("value"+id, n) + `"`
}

// C21_params: elements with some of the parameters.
func C21_params() {
	s := "[timeQuality"
	n := sym.Bound("bytes per value", 2, 2)
	for i := 0; i < 2; i++ {
		s += c21param(string(rune('1'+i)), n)
	}
	c21decode(s + "]")
}

// C21_accuracy: values of the accuracy.
func C21_accuracy() {
	c21decode(`[timeQuality tzKnown="` + sym.String("a", 1) + `" isSynced="` + sym.String("b", 1) + `" syncAccuracy="` + upTo("value", sym.Bound("bytes of the accuracy", 4, 7)) + `"]`)
}

// C21_huge: accuracies around the ends of the range.
func C21_huge() {
	head := []string{"922337203685477580", "-922337203685477580", "+922337203685477580", "1844674407370955161", "-1844674407370955161", "0000000000000000000000", "99999999999999999999"}
	k := sym.Split(sym.Int("head", 0, len(head)-1))
	d := sym.String("digit", 1)
	sd, ok := timequality.TQ.Found([]byte(`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="` + head[k] + d + `"]`))
	digit := d[0] >= '0' && d[0] <= '9'
	if !ok {
		return
	}
	sym.Assert(digit, "a malformed accuracy is accepted")
	v := *sd.(timequality.TimeQuality).SyncAccuracy
	u := int(d[0] - '0')
	switch k {
	case 0, 2:
		sym.Assert(u <= 7 && v == math.MaxInt64-7+u, "the accuracy is not what the parameter says")
	case 1:
		sym.Assert(u <= 8 && v == math.MinInt64+8-u, "the accuracy is not what the parameter says")
	case 5:
		sym.Assert(v == u, "the accuracy is not what the parameter says")
	default:
		sym.Fail("an accuracy that is out of range is accepted")
	}
	sym.Reach("decoded")
}

// C21_order: known parameters in any order, some left out: decoded as a time quality exactly if they are consistent.
func C21_order() {
	orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 1}, {1, 0}, {0, 2}, {2, 1}, {0}, {1}, {2}}
	order := orders[sym.Split(sym.Int("order", 0, len(orders)-1))]
	tz, synced := sym.String("tz", 1), sym.String("synced", 1)
	for _, c := range []byte(`"\]`) {
		noByte(tz, c)
		noByte(synced, c)
	}
	sign := []string{"", "-"}[sym.Split(sym.Int("sign", 0, 1))]
	digit := sym.Int("digit", 0, 9)
	v := digit
	if sign != "" {
		v = -digit
	}
	texts := []string{`tzKnown="` + tz + `"`, `isSynced="` + synced + `"`, `syncAccuracy="` + sign + string([]byte{byte('0' + digit)}) + `"`}
	s := "[timeQuality"
	given := [3]bool{}
	for _, k := range order {
		s += " " + texts[k]
		given[k] = true
	}
	known := given[0] && is(tz == "1")
	sync := given[1] && is(synced == "1")
	valid := !(given[0] && is(tz != "0") && !known) && !(given[1] && is(synced != "0") && !sync)
	sd, ok := sdata.Parse([]byte(s + "]"))
	sym.Assert(ok, "a well-formed element is refused")
	tq, is := sd.(timequality.TimeQuality)
	if !valid || sync && !known || given[2] && !sync {
		sym.Assert(!is, "an inconsistent or invalid element is decoded as a time quality")
		sym.Reach("generic")
		return
	}
	sym.Assert(is, "a consistent element is not decoded as a time quality")
	sym.Assert(tq.TzKnown == known && tq.IsSynced == sync, "a flag is not what the parameter says")
	sym.Assert((tq.SyncAccuracy != nil) == given[2] && (!given[2] || *tq.SyncAccuracy == v), "the accuracy is not what the parameter says")
	sym.Reach("decoded")
}
