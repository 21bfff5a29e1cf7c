package harness

import (
	"errors"
	"net"
	"strconv"

	"verif/harness/fakenet"
	"verif/harness/sym"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var errHost = errors.New("no such host")

// someIP is an address of either family, in any of its forms.
func someIP(k string) (a net.IPAddr, v4 bool) {
	switch sym.Split(sym.Int("form "+k, 0, 3)) {
	case 0:
		return net.IPAddr{IP: net.IP(sym.Bytes("v4 "+k, 4))}, true
	case 1: // the same in 16 bytes
		ip := net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, 0}
		ip[15] = sym.Byte("v4 mapped " + k)
		return net.IPAddr{IP: ip}, true
	case 2:
		ip := make(net.IP, 16)
		ip[0], ip[1] = 0x20, 1
		ip[15] = sym.Byte("v6 " + k)
		return net.IPAddr{IP: ip}, false
	}
	ip := make(net.IP, 16)
	ip[0], ip[1], ip[15] = 0xfe, 0x80, sym.Byte("v6 local "+k)
	return net.IPAddr{IP: ip, Zone: sym.String("zone "+k, 1)}, false
}

// usable: what is written to the connection goes to that endpoint, which is open.
func usable(c syslog.WriteCloser, e *fakenet.Endpoint) {
	sym.Assert(e != nil && e.Closed == 0, "the connection is closed")
	n, err := c.Write([]byte("hello"))
	sym.Assert(n == 5 && err == nil, "the connection that is returned cannot be written to")
	sym.Assert(len(e.Out) == 1 && e.Out[0] == "hello", "what is written does not go to the peer that answered")
	sym.Assert(c.Close() == nil && e.Closed == 1, "the connection that is returned cannot be closed")
}

// C25_tcp: any resolved addresses, any of which answer.
func C25_tcp() {
	network := []string{"tcp", "tcp4", "tcp6"}[sym.Split(sym.Int("network", 0, 2))]
	type peer struct {
		net.IPAddr
		v4, answers bool
	}
	var peers []peer
	var all []net.IPAddr
	n := sym.Split(sym.Int("addresses", 0, sym.Bound("addresses", 3, 4)))
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		ip, v4 := someIP(k)
		all = append(all, ip)
		if network == "tcp" || v4 == (network == "tcp4") {
			peers = append(peers, peer{ip, v4, bit("answers " + k)})
		}
	}
	first := -1 // which answers first
	for i, p := range peers {
		if p.answers && first < 0 {
			first = i
		}
	}
	ports := []string{"", "0", "514", "6514", "65535"}
	values := []int{514, 0, 514, 6514, 65535}
	port := sym.Split(sym.Int("port", 0, len(ports)-1))
	w := &fakenet.World{}
	fakenet.W = w
	w.Hosts = func(host string) ([]net.IPAddr, error) { return all, nil }
	w.Answers = func(a *fakenet.Attempt) error {
		i := len(w.Attempts) - 1
		if i < len(peers) && peers[i].answers {
			return nil
		}
		return fakenet.Refused
	}
	c, err := syslog.TCPConnector(network, "log.example:"+ports[port]).Connect()
	sym.Assert(len(w.Lookups) == 1 && w.Lookups[0] == "log.example", "another host is looked up")
	tried := len(peers)
	if first >= 0 {
		tried = first + 1
	}
	sym.Assert(len(w.Attempts) <= tried, "an address of another family, or one after that which answered, is tried")
	sym.Assert(len(w.Attempts) == tried, "an address is not tried")
	for i, a := range w.Attempts {
		sym.Assert(a.IP.Equal(peers[i].IP) && a.Zone == peers[i].Zone, "the addresses are not tried in order")
		sym.Assert(a.Port == values[port], "another port than the one given is used")
		if i != first {
			sym.Assert(!a.OK || a.Conn.Closed == 1, "a connection is left open")
		}
	}
	if first < 0 {
		sym.Assert(err != nil, "success is reported though no address answers")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "an error is reported though an address answers")
	usable(c, w.Attempts[first].Conn)
	sym.Reach("connected")
}

// C25_address: any text as port; a literal or a name as host.
func C25_address() {
	text := upTo("port", sym.Bound("bytes of a port", 3, 5))
	digits, value := text != "", 0
	for i := 0; i < len(text); i++ {
		if !is('0' <= text[i] && text[i] <= '9') {
			digits = false
			break
		}
		value = 10*value + int(text[i]-'0')
	}
	hosts := []string{"log.example", "192.0.2.1", "[2001:db8::1]", ""}
	names := []string{"log.example", "192.0.2.1", "2001:db8::1", ""}
	host := sym.Split(sym.Int("host", 0, 3))
	w := &fakenet.World{}
	fakenet.W = w
	w.Hosts = func(host string) ([]net.IPAddr, error) {
		return []net.IPAddr{{IP: net.IP{192, 0, 2, 7}}}, nil
	}
	w.Answers = func(a *fakenet.Attempt) error { return nil }
	c, err := syslog.TCPConnector("tcp", hosts[host]+":"+text).Connect()
	if err != nil {
		sym.Assert(!digits && text != "" || value > 65535, "an address with a port is refused")
		for _, a := range w.Attempts {
			sym.Assert(!a.OK, "an error is reported for a connection that was made")
		}
		sym.Reach("refused")
		return
	}
	sym.Assert(len(w.Lookups) == 1 && w.Lookups[0] == names[host], "another host is looked up")
	sym.Assert(len(w.Attempts) == 1, "the peer is not connected to once")
	if text == "" {
		sym.Assert(w.Attempts[0].Port == 514, "the port is not 514 when none is given")
	}
	if digits {
		sym.Assert(w.Attempts[0].Port == value, "another port than the one given is used")
	}
	usable(c, w.Attempts[0].Conn)
	sym.Reach("connected")
}

// C25_unresolved: any text as address, a host that cannot be found.
func C25_unresolved() {
	w := &fakenet.World{Hosts: func(host string) ([]net.IPAddr, error) { return nil, errHost }}
	fakenet.W = w
	network := []string{"tcp", "tcp4", "tcp6"}[sym.Split(sym.Int("network", 0, 2))]
	_, err := syslog.TCPConnector(network, upTo("address", sym.Bound("bytes of an address", 3, 4))).Connect()
	sym.Assert(err != nil, "success is reported without a connection")
	sym.Assert(len(w.Attempts) == 0, "a connection is attempted to an unknown host")
	sym.Reach("refused")
}

// C25_again: connecting once more resolves and tries again.
func C25_again() {
	network := []string{"tcp", "tcp4", "tcp6"}[sym.Split(sym.Int("network", 0, 2))]
	four, six := net.IPAddr{IP: net.IP{192, 0, 2, 1}}, net.IPAddr{IP: make(net.IP, 16)}
	six.IP[15] = 9
	kinds := [3]bool{}
	w := &fakenet.World{}
	fakenet.W = w
	w.Hosts = func(host string) ([]net.IPAddr, error) {
		switch sym.Split(sym.Int("found "+strconv.Itoa(len(w.Lookups)), 0, 3)) {
		case 0:
			return nil, errHost
		case 1:
			kinds = [3]bool{true, true, false}
			return []net.IPAddr{four}, nil
		case 2:
			kinds = [3]bool{true, false, true}
			return []net.IPAddr{six}, nil
		}
		kinds = [3]bool{true, true, true}
		return []net.IPAddr{six, four}, nil
	}
	up := false
	w.Answers = func(a *fakenet.Attempt) error {
		if up {
			return nil
		}
		return fakenet.Refused
	}
	conn := syslog.TCPConnector(network, "h:1")
	for i := 0; i < sym.Bound("connections", 2, 3); i++ {
		up = bit("up " + strconv.Itoa(i))
		kinds = [3]bool{}
		at := len(w.Attempts)
		c, err := conn.Connect()
		found := kinds[map[string]int{"tcp": 0, "tcp4": 1, "tcp6": 2}[network]]
		sym.Assert((err == nil) == (up && found), "success is reported if and only if there is a connection")
		if err == nil {
			sym.Assert(len(w.Attempts) == at+1, "more than one connection is made")
			usable(c, w.Attempts[at].Conn)
		}
	}
	sym.Reach("again")
}

// locals is the order in which local sockets are tried.
func locals(network, address string) (all [][2]string) {
	switch {
	case network != "" && address != "":
		return [][2]string{{network, address}}
	case address != "":
		return [][2]string{{"unix", address}, {"unixgram", address}}
	}
	for _, n := range []string{"unix", "unixgram"} {
		for _, a := range []string{"/var/run/syslog", "/var/run/log", "/dev/log"} {
			all = append(all, [2]string{n, a})
		}
	}
	return all
}

// C25_local: any of the sockets answer.
func C25_local() {
	network := []string{"", "unix", "unixgram"}[sym.Split(sym.Int("network", 0, 2))]
	address := ""
	if bit("address given") {
		address = sym.String("address", 3)
	}
	sockets := locals(network, address)
	first := sym.Split(sym.Int("first that answers", 0, 6))
	sym.Assume(first <= len(sockets))
	rest := bit("those after it answer")
	w := &fakenet.World{}
	fakenet.W = w
	w.Answers = func(a *fakenet.Attempt) error {
		for i, s := range sockets {
			if s[0] == a.Network && s[1] == a.Address && (i == first || i > first && rest) {
				return nil
			}
		}
		return fakenet.Refused
	}
	c, err := syslog.LocalConnector(network, address).Connect()
	for i, a := range w.Attempts {
		sym.Assert(i < len(sockets) && i <= first && sockets[i] == [2]string{a.Network, a.Address}, "the sockets are not tried in order")
	}
	if first == len(sockets) {
		sym.Assert(err != nil, "success is reported though no socket answers")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "an error is reported though a socket answers")
	sym.Assert(len(w.Attempts) == first+1, "a socket is not tried")
	usable(c, w.Attempts[first].Conn)
	sym.Reach("connected")
}

// C25_locally: a local connector that connects again goes to a socket that answers.
func C25_locally() {
	network := []string{"", "unix", "unixgram"}[sym.Split(sym.Int("network", 0, 2))]
	address := []string{"", "/run/s"}[sym.Split(sym.Int("address", 0, 1))]
	sockets := locals(network, address)
	w := &fakenet.World{}
	fakenet.W = w
	var up int
	w.Answers = func(a *fakenet.Attempt) error {
		if up < len(sockets) && sockets[up] == [2]string{a.Network, a.Address} {
			return nil
		}
		return fakenet.Refused
	}
	conn := syslog.LocalConnector(network, address)
	for i := 0; i < sym.Bound("connections", 2, 3); i++ {
		up = sym.Split(sym.Int("up "+strconv.Itoa(i), 0, 6))
		sym.Assume(up <= len(sockets))
		at := len(w.Attempts)
		c, err := conn.Connect()
		if err != nil {
			sym.Assert(up == len(sockets) || i > 0, "an error is reported though a socket answers")
			continue
		}
		sym.Assert(up < len(sockets), "success is reported though no socket answers")
		k := len(w.Attempts) - 1
		sym.Assert(k >= at && sockets[up] == [2]string{w.Attempts[k].Network, w.Attempts[k].Address}, "the connection is not to the socket that answers")
		usable(c, w.Attempts[k].Conn)
	}
	sym.Reach("again")
}
