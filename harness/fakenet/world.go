// Package fakenet stands in for package net in the repository when the checks of connections and
// listeners run: everything that would reach the network is decided by World, everything else is
// that of package net.
package fakenet

import (
	"context"
	"errors"
	"io"
	"net"
	"strconv"
	"syscall"
	"time"
)

// Attempt is an attempt to connect.
type Attempt struct {
	Network string
	Address string // of a local socket
	IP      net.IP
	Port    int
	Zone    string
	OK      bool
	Conn    *Endpoint
}

// Binding is an attempt to listen.
type Binding struct {
	Network string
	Address string // of a local socket
	IP      net.IP
	Port    int
	Conns   []*Endpoint // the connections to come
	Closed  int
	end     chan struct{}
}

// Endpoint is a connection.
type Endpoint struct {
	Network string
	In      []string // what arrives, a datagram each or a piece of a stream
	Out     []string // what was written
	Closed  int
	end     chan struct{}
}

// World decides what happens outside.
type World struct {
	Hosts    func(host string) ([]net.IPAddr, error)
	Answers  func(a *Attempt) error
	Bind     func(b *Binding) error
	Attempts []*Attempt
	Bindings []*Binding
	Lookups  []string
}

// W is the current world.
var W = &World{}

// Refused is the usual error.
var Refused = errors.New("connection refused")

func opError(op, network string, err error) error {
	return &net.OpError{Op: op, Net: network, Err: err}
}

func connect(a *Attempt) (*Endpoint, error) {
	W.Attempts = append(W.Attempts, a)
	if a.Port < 0 || a.Port > 65535 {
		return nil, opError("dial", a.Network, syscall.EINVAL)
	}
	err := Refused
	if W.Answers != nil {
		err = W.Answers(a)
	}
	if err != nil {
		return nil, opError("dial", a.Network, err)
	}
	a.OK = true
	a.Conn = NewEndpoint(a.Network)
	return a.Conn, nil
}

// NewEndpoint is an open connection.
func NewEndpoint(network string, in ...string) *Endpoint {
	return &Endpoint{Network: network, In: in, end: make(chan struct{})}
}

func (e *Endpoint) write(b []byte) (int, error) {
	if e.Closed > 0 {
		return 0, opError("write", e.Network, net.ErrClosed)
	}
	e.Out = append(e.Out, string(b))
	return len(b), nil
}

func (e *Endpoint) closeAll() error {
	e.Closed++
	if e.Closed > 1 {
		return opError("close", e.Network, net.ErrClosed)
	}
	close(e.end)
	return nil
}

func (e *Endpoint) read(b []byte) (int, error) {
	if e.Closed > 0 {
		return 0, opError("read", e.Network, net.ErrClosed)
	}
	if len(e.In) == 0 {
		if e.Network != "unixgram" {
			return 0, io.EOF
		}
		<-e.end
		return 0, opError("read", e.Network, net.ErrClosed)
	}
	n := copy(b, e.In[0])
	e.In[0] = e.In[0][n:]
	if e.Network == "unixgram" || len(e.In[0]) == 0 {
		e.In = e.In[1:]
	}
	return n, nil
}

// ---- connecting

func family(network string, ip net.IP) error {
	switch {
	case network == "tcp4" && ip != nil && ip.To4() == nil, network == "tcp6" && ip != nil && ip.To4() != nil:
		return opError("dial", network, &net.AddrError{Err: "no suitable address"})
	}
	return nil
}

// DialTCP see net.DialTCP
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, opError("dial", network, net.UnknownNetworkError(network))
	}
	if raddr == nil {
		return nil, opError("dial", network, errors.New("missing address"))
	}
	if err := family(network, raddr.IP); err != nil {
		return nil, err
	}
	e, err := connect(&Attempt{Network: network, IP: raddr.IP, Port: raddr.Port, Zone: raddr.Zone})
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

// DialUnix see net.DialUnix
func DialUnix(network string, laddr, raddr *net.UnixAddr) (*UnixConn, error) {
	switch network {
	case "unix", "unixgram", "unixpacket":
	default:
		return nil, opError("dial", network, net.UnknownNetworkError(network))
	}
	if raddr == nil {
		return nil, opError("dial", network, errors.New("missing address"))
	}
	if raddr.Net != "" && raddr.Net != network {
		// the type of the socket is that of the network
		return nil, opError("dial", network, net.UnknownNetworkError(raddr.Net))
	}
	e, err := connect(&Attempt{Network: network, Address: raddr.Name})
	if err != nil {
		return nil, err
	}
	return &UnixConn{e}, nil
}

// Dial see net.Dial
func Dial(network, address string) (net.Conn, error) {
	switch network {
	case "unix", "unixgram", "unixpacket":
		c, err := DialUnix(network, nil, &net.UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return c, nil
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, opError("dial", network, net.UnknownNetworkError(network))
	}
	host, service, err := net.SplitHostPort(address)
	if err != nil {
		return nil, opError("dial", network, err)
	}
	port, err := strconv.Atoi(service)
	if err != nil {
		return nil, opError("dial", network, err)
	}
	ips := []net.IPAddr{{IP: ParseIP(host)}}
	if ips[0].IP == nil && host != "" {
		if ips, err = lookup(host); err != nil {
			return nil, opError("dial", network, err)
		}
	}
	err = opError("dial", network, errors.New("no suitable address"))
	for _, ip := range ips {
		var c *TCPConn
		if c, err = DialTCP(network, nil, &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}); err == nil {
			return c, nil
		}
	}
	return nil, err
}

// DialTimeout see net.DialTimeout
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// Dialer see net.Dialer
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
}

// Dial see net.Dialer
func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

// DialContext see net.Dialer
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return Dial(network, address)
}

// ---- names

// ParseIP see net.ParseIP
func ParseIP(s string) net.IP {
	ip := net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}
	n, digits := 0, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case '0' <= c && c <= '9' && digits < 3 && (digits == 0 || n > 0):
			n = 10*n + int(c-'0')
			digits++
		case c == '.' && digits > 0 && n < 256:
			ip = append(ip, byte(n))
			n, digits = 0, 0
		default:
			return net.ParseIP(s) // not of that form
		}
	}
	if len(ip) != 15 || digits == 0 || n > 255 {
		return nil
	}
	return append(ip, byte(n))
}

func lookup(host string) ([]net.IPAddr, error) {
	W.Lookups = append(W.Lookups, host)
	if W.Hosts == nil {
		return nil, &net.DNSError{Err: "no such host", Name: host}
	}
	return W.Hosts(host)
}

// Resolver see net.Resolver
type Resolver struct {
	PreferGo     bool
	StrictErrors bool
	Dial         func(ctx context.Context, network, address string) (net.Conn, error)
}

// DefaultResolver see net.DefaultResolver
var DefaultResolver = &Resolver{}

// LookupIPAddr see net.Resolver
func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]net.IPAddr, error) {
	return lookup(host)
}

// LookupIP see net.Resolver
func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]net.IP, error) {
	all, err := lookup(host)
	if err != nil {
		return nil, err
	}
	var ips []net.IP
	for _, a := range all {
		if network == "ip" || (network == "ip4") == (a.IP.To4() != nil) {
			ips = append(ips, a.IP)
		}
	}
	return ips, nil
}

// LookupHost see net.Resolver
func (r *Resolver) LookupHost(ctx context.Context, host string) ([]string, error) {
	all, err := lookup(host)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, a := range all {
		names = append(names, a.String())
	}
	return names, nil
}

// LookupIP see net.LookupIP
func LookupIP(host string) ([]net.IP, error) {
	return DefaultResolver.LookupIP(context.Background(), "ip", host)
}

// LookupHost see net.LookupHost
func LookupHost(host string) ([]string, error) {
	return DefaultResolver.LookupHost(context.Background(), host)
}

// ResolveTCPAddr see net.ResolveTCPAddr
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	switch network {
	case "tcp", "tcp4", "tcp6", "":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	if address == "" {
		return &net.TCPAddr{}, nil
	}
	host, service, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(service)
	if err != nil {
		return nil, err
	}
	if host == "" {
		return &net.TCPAddr{Port: port}, nil
	}
	if ip := ParseIP(host); ip != nil {
		return &net.TCPAddr{IP: ip, Port: port}, nil
	}
	ips, err := lookup(host)
	if err != nil {
		return nil, err
	}
	for _, ip := range ips {
		if family(network, ip.IP) == nil {
			return &net.TCPAddr{IP: ip.IP, Port: port, Zone: ip.Zone}, nil
		}
	}
	return nil, &net.AddrError{Err: "no suitable address", Addr: host}
}

// ---- listening

func bind(b *Binding) error {
	W.Bindings = append(W.Bindings, b)
	b.end = make(chan struct{})
	if W.Bind != nil {
		if err := W.Bind(b); err != nil {
			return opError("listen", b.Network, err)
		}
	}
	return nil
}

func (b *Binding) next() (*Endpoint, error) {
	if b.Closed == 0 && len(b.Conns) > 0 {
		e := b.Conns[0]
		b.Conns = b.Conns[1:]
		return e, nil
	}
	<-b.end
	return nil, opError("accept", b.Network, net.ErrClosed)
}

func (b *Binding) close() error {
	b.Closed++
	if b.Closed > 1 {
		return opError("close", b.Network, net.ErrClosed)
	}
	close(b.end)
	return nil
}

// ListenTCP see net.ListenTCP
func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, opError("listen", network, net.UnknownNetworkError(network))
	}
	b := &Binding{Network: network}
	if laddr != nil {
		b.Port = laddr.Port
		b.IP = laddr.IP
	}
	if err := bind(b); err != nil {
		return nil, err
	}
	return &TCPListener{b}, nil
}

// ListenUnix see net.ListenUnix
func ListenUnix(network string, laddr *net.UnixAddr) (*UnixListener, error) {
	switch network {
	case "unix", "unixpacket":
	default:
		return nil, opError("listen", network, net.UnknownNetworkError(network))
	}
	if laddr == nil {
		return nil, opError("listen", network, errors.New("missing address"))
	}
	b := &Binding{Network: network, Address: laddr.Name}
	if err := bind(b); err != nil {
		return nil, err
	}
	return &UnixListener{b}, nil
}

// ListenUnixgram see net.ListenUnixgram
func ListenUnixgram(network string, laddr *net.UnixAddr) (*UnixConn, error) {
	if network != "unixgram" {
		return nil, opError("listen", network, net.UnknownNetworkError(network))
	}
	if laddr == nil {
		return nil, opError("listen", network, errors.New("missing address"))
	}
	b := &Binding{Network: network, Address: laddr.Name}
	if err := bind(b); err != nil {
		return nil, err
	}
	if len(b.Conns) > 0 {
		return &UnixConn{b.Conns[0]}, nil
	}
	e := NewEndpoint("unixgram")
	b.Conns = append(b.Conns, e)
	return &UnixConn{e}, nil
}

// Listen see net.Listen
func Listen(network, address string) (net.Listener, error) {
	switch network {
	case "unix", "unixpacket":
		l, err := ListenUnix(network, &net.UnixAddr{Name: address, Net: network})
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, opError("listen", network, err)
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// ListenPacket see net.ListenPacket
func ListenPacket(network, address string) (net.PacketConn, error) {
	c, err := ListenUnixgram(network, &net.UnixAddr{Name: address, Net: network})
	if err != nil {
		return nil, err
	}
	return c, nil
}

// TCPListener see net.TCPListener
type TCPListener struct{ b *Binding }

// Accept see net.TCPListener
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP see net.TCPListener
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if l == nil {
		return nil, syscall.EINVAL
	}
	e, err := l.b.next()
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

// Close see net.TCPListener
func (l *TCPListener) Close() error {
	if l == nil {
		return syscall.EINVAL
	}
	return l.b.close()
}

// Addr see net.TCPListener
func (l *TCPListener) Addr() net.Addr { return &net.TCPAddr{Port: l.b.Port} }

// SetDeadline see net.TCPListener
func (l *TCPListener) SetDeadline(t time.Time) error { return nil }

// UnixListener see net.UnixListener
type UnixListener struct{ b *Binding }

// Accept see net.UnixListener
func (l *UnixListener) Accept() (net.Conn, error) {
	c, err := l.AcceptUnix()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptUnix see net.UnixListener
func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	if l == nil {
		return nil, syscall.EINVAL
	}
	e, err := l.b.next()
	if err != nil {
		return nil, err
	}
	return &UnixConn{e}, nil
}

// Close see net.UnixListener
func (l *UnixListener) Close() error {
	if l == nil {
		return syscall.EINVAL
	}
	return l.b.close()
}

// Addr see net.UnixListener
func (l *UnixListener) Addr() net.Addr { return &net.UnixAddr{Name: l.b.Address, Net: "unix"} }

// SetDeadline see net.UnixListener
func (l *UnixListener) SetDeadline(t time.Time) error { return nil }

// SetUnlinkOnClose see net.UnixListener
func (l *UnixListener) SetUnlinkOnClose(unlink bool) {}

// ReadFrom see net.UnixConn
func (c *UnixConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, err := c.Read(b)
	return n, nil, err
}

// ReadFromUnix see net.UnixConn
func (c *UnixConn) ReadFromUnix(b []byte) (int, *net.UnixAddr, error) {
	n, err := c.Read(b)
	return n, nil, err
}

// ReadMsgUnix see net.UnixConn
func (c *UnixConn) ReadMsgUnix(b, oob []byte) (n, oobn, flags int, addr *net.UnixAddr, err error) {
	n, err = c.Read(b)
	return
}

// WriteTo see net.UnixConn
func (c *UnixConn) WriteTo(b []byte, addr net.Addr) (int, error) { return c.Write(b) }

// SetNoDelay see net.TCPConn
func (c *TCPConn) SetNoDelay(noDelay bool) error { return c.state() }

// SetKeepAlive see net.TCPConn
func (c *TCPConn) SetKeepAlive(keepalive bool) error { return c.state() }

// SetKeepAlivePeriod see net.TCPConn
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return c.state() }

// SetKeepAliveConfig see net.TCPConn
func (c *TCPConn) SetKeepAliveConfig(config net.KeepAliveConfig) error { return c.state() }

// SetLinger see net.TCPConn
func (c *TCPConn) SetLinger(sec int) error { return c.state() }

// ---- several writes at once

// Buffers see net.Buffers
type Buffers [][]byte

// WriteTo see net.Buffers ; a socket takes all of them in one write
func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	var e *Endpoint
	switch c := w.(type) {
	case *TCPConn:
		e = c.e
	case *UnixConn:
		e = c.e
	}
	if e != nil {
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		k, err := e.write(all)
		v.consume(int64(k))
		return int64(k), err
	}
	for _, b := range *v {
		k, err := w.Write(b)
		n += int64(k)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

// Read see net.Buffers
func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		k := copy(p, (*v)[0])
		v.consume(int64(k))
		p = p[k:]
		n += k
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		if k := int64(len((*v)[0])); k > n {
			(*v)[0] = (*v)[0][n:]
			return
		} else {
			n -= k
		}
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}
