package harness

import (
	"errors"
	"net"
	"strconv"
	"time"

	"verif/harness/fakenet"
	"verif/harness/fakeos"
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var dialed = []string{"stdio", "local", "unix", "unixgram", "tcp", "tcp4", "tcp6"}

// someNetwork is one of the names, or any text; which is -1 if it is none of them.
func someNetwork(names []string) (network string, which int) {
	which = sym.Split(sym.Int("network", 0, len(names)))
	if which < len(names) {
		return names[which], which
	}
	network = upTo("name of a network", sym.Bound("bytes of a network name", 5, 8))
	for i, n := range names {
		if is(network == n) {
			return network, i
		}
	}
	return network, -1
}

// answering is a world in which everybody answers.
func answering() *fakenet.World {
	fakeos.Reset()
	w := &fakenet.World{
		Hosts: func(host string) ([]net.IPAddr, error) {
			return []net.IPAddr{{IP: net.IP{192, 0, 2, 7}}, {IP: make(net.IP, 16)}}, nil
		},
		Answers: func(a *fakenet.Attempt) error { return nil },
	}
	fakenet.W = w
	return w
}

// C24_dial: any network, any transport.
func C24_dial() {
	w := answering()
	network, which := someNetwork(dialed)
	given := sym.Split(sym.Int("transport", 0, 3))
	address := []string{"stderr:", "/run/log", "/run/log", "/run/log", "h:1", "h:1", "h:1", "stderr:"}[(which+8)%8]
	text := upTo("text", 1)
	noByte(text, 0)
	noByte(text, '\n')
	transports := []syslog.Transport{syslog.TransportZeroEnded, syslog.TransportLFEnded, syslog.TransportRFC5425}
	var s *syslog.Sender
	var c <-chan error
	var err error
	if bit("with a dialer") {
		var t syslog.Transport
		if given > 0 {
			t = transports[given-1]
		}
		delay := []time.Duration{0, -time.Second, time.Millisecond, time.Second, time.Hour}[sym.Split(sym.Int("delay", 0, 4))]
		s, c, err = syslog.Dialer{FlushDelay: delay}.Dial(network, address, t)
	} else {
		sym.Assume(given == 0)
		s, c, err = syslog.Dial(network, address)
	}
	if which < 0 {
		sym.Assert(err != nil && s == nil && c == nil, "an unknown network is accepted")
		sym.Assert(len(w.Attempts) == 0, "a connection is made over an unknown network")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && s != nil && c != nil, "a known network is refused")
	m := syslog.CreateWholeMessage(13, time.Unix(0, 0).UTC(), "h", "a", "p", "m", text)
	sym.Assert(s.Send(m) == nil, "a message is refused")
	s.End()
	for err := range c {
		sym.Assert(err == nil, "an error is reported with a peer that answers")
	}
	framing := given - 1
	if given == 0 {
		framing = []int{1, 0, 0, 0, 1, 1, 1}[which]
	}
	want := refEncode(framing, m.String())
	if which == 0 {
		sym.Assert(len(w.Attempts) == 0 && len(fakeos.Stdout.Out) == 0, "the message goes elsewhere")
		sym.Assert(len(fakeos.Stderr.Out) == 1 && fakeos.Stderr.Out[0] == want, "the message is not framed as it should be")
		sym.Reach("stdio")
		return
	}
	sym.Assert(len(w.Attempts) == 1 && len(fakeos.Stderr.Out) == 0, "the peer is not connected to once")
	a := w.Attempts[0]
	sym.Assert(a.Network == network || which == 1 && a.Network == "unix", "another network is used")
	if which < 4 {
		sym.Assert(a.Address == "/run/log", "another address is used")
	} else {
		sym.Assert(a.Port == 1 && len(w.Lookups) == 1 && w.Lookups[0] == "h", "another address is used")
	}
	sym.Assert(len(a.Conn.Out) == 1 && a.Conn.Out[0] == want, "the message is not framed as it should be")
	sym.Reach("sent")
}

// C24_stdio: any name of a stream.
func C24_stdio() {
	w := answering()
	name := []string{"stderr:", "stdout:", ""}[sym.Split(sym.Int("name", 0, 2))]
	if name == "" {
		name = upTo("text", sym.Bound("bytes of a name", 7, 9))
	}
	which := -1
	if is(name == "stderr:") {
		which = 0
	} else if is(name == "stdout:") {
		which = 1
	}
	c, err := syslog.StdioConnector(name).Connect()
	sym.Assert(len(w.Attempts) == 0, "a connection is made")
	if which < 0 {
		sym.Assert(err != nil, "an unknown stream is accepted")
		_, err = syslog.StdioConnector(name).Connect()
		sym.Assert(err != nil, "an unknown stream is accepted later")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a standard stream is refused")
	n, err := c.Write([]byte("x"))
	sym.Assert(n == 1 && err == nil, "a standard stream cannot be written to")
	sym.Assert(len(fakeos.Stderr.Out) == 1-which && len(fakeos.Stdout.Out) == which, "another stream is written to")
	sym.Reach("stream")
}

// C24_tcp: any network and address given to a connector.
func C24_tcp() {
	w := answering()
	network, which := someNetwork([]string{"tcp", "tcp4", "tcp6"})
	address := "h:1"
	if bit("no address") {
		address = ""
	}
	conn := syslog.TCPConnector(network, address)
	sym.Assert(conn != nil, "there is no connector")
	for i := 0; i < 2; i++ {
		_, err := conn.Connect()
		sym.Assert((err == nil) == (which >= 0 && address != ""), "a connector fails if and only if its network or address is invalid")
	}
	sym.Assert(len(w.Attempts) == 0 || which >= 0 && address != "", "an invalid connector connects")
	for _, a := range w.Attempts {
		sym.Assert(a.Network == network, "another network is used")
	}
	sym.Reach("checked")
}

// C24_invalid: dialing an address that is invalid tells so on the error channel.
func C24_invalid() {
	w := answering()
	network := dialed[sym.Split(sym.Int("network", 0, 3))*2]
	address := []string{"", "x", "/run/none"}[sym.Split(sym.Int("address", 0, 2))]
	w.Answers = func(a *fakenet.Attempt) error { return fakenet.Refused }
	s, c, err := syslog.Dialer{}.Dial(network, address, nil)
	sym.Assert(err == nil && s != nil && c != nil, "a known network is refused")
	sym.Assert(s.Send(syslog.CreateWholeMessage(13, time.Unix(0, 0).UTC(), "h", "a", "p", "m", "x")) == nil, "a message is refused")
	s.End()
	err, more := <-c
	sym.Assert(more && err != nil, "no error is reported though there is no connection")
	sym.Assert(len(fakeos.Stderr.Out) == 0 && len(fakeos.Stdout.Out) == 0, "the message goes elsewhere")
	sym.Reach("reported")
}

var errBind = errors.New("bind: permission denied")

// listened checks what came of listening.
func listened(l syslog.Listener, err error, w *fakenet.World, known bool, network, address string, ip net.IP, port int, fails bool, conns []*fakenet.Endpoint) {
	if !known {
		sym.Assert(err != nil && l == nil, "an unknown network is accepted")
		sym.Assert(len(w.Bindings) == 0, "an unknown network is listened to")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(w.Bindings) == 1, "not one socket is listened to")
	b := w.Bindings[0]
	sym.Assert(b.Network == network, "another kind of socket is listened to")
	sym.Assert(b.Address == address && b.IP.Equal(ip) && b.Port == port, "another address is listened to")
	if fails {
		sym.Assert(err != nil && l == nil, "a listener without a socket")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil && l != nil, "a known network is refused")
	p := make([]byte, 8)
	for i, e := range conns {
		if i > 0 && network == "unixgram" {
			break
		}
		r, err := l.Accept()
		sym.Assert(err == nil, "a connection is not accepted")
		n, err := r.Read(p)
		sym.Assert(err == nil && string(p[:n]) == "data"+strconv.Itoa(i), "the data of the connection does not arrive")
		sym.Assert(r.Close() == nil && e.Closed == 1, "a connection cannot be closed")
	}
	done := make(chan bool)
	go func() {
		_, err := l.Accept()
		sym.Assert(err != nil, "a connection is accepted that never came")
		done <- true
	}()
	sym.Wait()
	sym.Assert(l.Close() == nil, "a listener cannot be closed")
	<-done
	sym.Assert(b.Closed == 1 || network == "unixgram", "the socket is not closed")
	sym.Reach("listened")
}

var listeners = []string{"tcp", "tcp4", "tcp6", "unix", "unixgram"}

// listening is a world in which that many connections come.
func listening(n int) (*fakenet.World, *[]*fakenet.Endpoint, bool) {
	w := answering()
	conns := new([]*fakenet.Endpoint)
	fails := bit("fails")
	w.Bind = func(b *fakenet.Binding) error {
		if fails {
			return errBind
		}
		for i := 0; i < n; i++ {
			*conns = append(*conns, fakenet.NewEndpoint(b.Network, "data"+strconv.Itoa(i)))
		}
		b.Conns = append([]*fakenet.Endpoint{}, *conns...)
		return nil
	}
	return w, conns, fails
}

// C24_listen: any network given to GuessListener.
func C24_listen() {
	network, which := someNetwork(listeners)
	n := sym.Split(sym.Int("connections", 1, 2))
	w, conns, fails := listening(n)
	ask, address, port, ip := "/run/s", "/run/s", 0, net.IP(nil)
	if which >= 0 && which < 3 {
		ask, address, port = []string{":601", "192.0.2.1:601", "192.0.2.1:0"}[sym.Split(sym.Int("address", 0, 2))], "", 601
		if ask[0] != ':' {
			ip = net.IP{192, 0, 2, 1}
		}
		if ask[len(ask)-1] == '0' {
			port = 0
		}
	}
	l, err := syslog.GuessListener(network, ask)
	listened(l, err, w, which >= 0, network, address, ip, port, fails, *conns)
}

// C24_tcplisten: any network given to TCPListener.
func C24_tcplisten() {
	network, which := someNetwork(listeners[:3])
	w, conns, fails := listening(1)
	l, err := syslog.TCPListener(network, ":601")
	listened(l, err, w, which >= 0, network, "", nil, 601, fails, *conns)
}

// C24_stale: the socket of a server that is gone is replaced, and only then something is removed.
func C24_stale() {
	network := listeners[3+sym.Split(sym.Int("network", 0, 1))]
	w := answering()
	exists := bit("exists")
	other := bit("fails otherwise")
	fakeos.Exists = func(name string) bool { return exists && name == "/run/s" && len(fakeos.Removed) == 0 }
	w.Bind = func(b *fakenet.Binding) error {
		switch {
		case other:
			return errBind
		case !exists || len(fakeos.Removed) == 0:
			return errors.New("bind: address already in use")
		}
		return nil
	}
	l, err := syslog.GuessListener(network, "/run/s")
	if other || !exists {
		sym.Assert(err != nil && l == nil, "a listener without a socket")
		sym.Assert(len(fakeos.Removed) == 0, "a file is removed in vain")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil && l != nil, "a stale socket is not replaced")
	sym.Assert(len(w.Bindings) == 2 && w.Bindings[1].Network == network && w.Bindings[1].Address == "/run/s", "another socket is listened to")
	sym.Reach("replaced")
}
