package harness

import (
	"strconv"

	"verif/harness/fakenet"
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// datagrams makes a listener of which the socket receives these datagrams.
func datagrams(in ...string) (syslog.Listener, syslog.DataReader, *fakenet.Endpoint) {
	e := fakenet.NewEndpoint("unixgram", in...)
	fakenet.W = &fakenet.World{Bind: func(b *fakenet.Binding) error {
		b.Conns = []*fakenet.Endpoint{e}
		return nil
	}}
	l, err := syslog.UnixgramListener("/run/log")
	sym.Assert(err == nil && l != nil, "listening fails")
	c, err := l.Accept()
	sym.Assert(err == nil && c != nil, "accepting fails")
	return l, c, e
}

// C26_sizes: datagrams of any sizes and contents, reads of any sizes.
func C26_sizes() {
	max := sym.Bound("bytes per datagram", 3, 5)
	var in []string
	all := ""
	for i := 0; i < sym.Split(sym.Int("datagrams", 0, sym.Bound("datagrams", 3, 3))); i++ {
		k := strconv.Itoa(i)
		d := sym.String("data"+k, sym.Split(sym.Int("size"+k, 0, max)))
		in = append(in, d)
		all += d
	}
	_, c, e := datagrams(in...)
	got := ""
	for i := 0; len(got) < len(all); i++ {
		k := strconv.Itoa(i)
		sym.Assert(i < 40, "the data never comes to an end")
		room := 3
		if i < sym.Bound("reads of any size", 4, 5) {
			room = sym.Split(sym.Int("room"+k, 0, max+1))
		}
		p := make([]byte, room+2)
		for j := range p {
			p[j] = 'z'
		}
		n, err := c.Read(p[:room])
		sym.Assert(err == nil, "reading fails")
		sym.Assert(n >= 0 && n <= room, "more bytes are reported than there was room for")
		sym.Assert(p[room] == 'z' && p[room+1] == 'z', "a read writes beyond the room it was given")
		got += string(p[:n])
		sym.Assert(len(got) <= len(all), "bytes come that were not received")
	}
	sym.Assert(got == all, "the bytes are not those received")
	sym.Assert(e.Closed == 0, "the socket is closed")
	sym.Reach("read")
}

// C26_kept: what was read stays what it was when more is read.
func C26_kept() {
	a, b := sym.String("first", 3), sym.String("second", 3)
	_, c, _ := datagrams(a, b)
	p, q := make([]byte, 8), make([]byte, 8)
	n, err := c.Read(p[:sym.Split(sym.Int("room", 1, 4))])
	sym.Assert(err == nil, "reading fails")
	was := string(p[:n])
	m, err := c.Read(q)
	sym.Assert(err == nil, "reading fails")
	sym.Assert(string(p[:n]) == was, "a later read changes what was read before")
	all := was + string(q[:m])
	sym.Assert(len(all) <= 6 && all == (a + b)[:len(all)], "the bytes are not those received")
	sym.Reach("kept")
}

// C26_large: datagrams up to the size of the buffer.
func C26_large() {
	sizes := []int{1, 500, 4096, 65000, 65535, 65536}
	x := sym.String("x", 2)
	d := long(sizes[sym.Split(sym.Int("size", 0, len(sizes)-1))]-1) + x[:1]
	_, c, _ := datagrams(d, x)
	rooms := []int{499, 65535, 65536, 70000}
	p := make([]byte, rooms[sym.Split(sym.Int("room", 0, len(rooms)-1))])
	got := ""
	for len(got) < len(d)+2 {
		n, err := c.Read(p)
		sym.Assert(err == nil && n <= len(p) && n > 0, "reading fails")
		got += string(p[:n])
	}
	sym.Assert(got == d+x, "the bytes are not those received")
	sym.Reach("read")
}

// C26_closed: reading ends with an error when the socket is closed.
func C26_closed() {
	l, c, e := datagrams("abc")
	p := make([]byte, 2)
	n, err := c.Read(p)
	sym.Assert(err == nil && n == 2 && string(p) == "ab", "the bytes are not those received")
	n, err = c.Read(p)
	sym.Assert(err == nil && n == 1 && p[0] == 'c', "the bytes are not those received")
	done := make(chan bool)
	go func() {
		n, err := c.Read(p)
		sym.Assert(n == 0 && err != nil, "a read of a closed socket gives data")
		done <- true
	}()
	sym.Wait()
	sym.Assert(p[0] == 'c' && e.Closed == 0, "the socket is closed early")
	c.Close()
	<-done
	l.Close()
	sym.Assert(e.Closed == 1, "the socket is not closed once")
	sym.Reach("closed")
}
