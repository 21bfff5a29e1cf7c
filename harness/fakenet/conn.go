package fakenet

import (
	"net"
	"syscall"
	"time"
)

// TCPConn see net.TCPConn
type TCPConn struct{ e *Endpoint }

func (c *TCPConn) state() error {
	if c == nil {
		return syscall.EINVAL
	}
	return nil
}

// Read see net.TCPConn
func (c *TCPConn) Read(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.e.read(b)
}

// Write see net.TCPConn
func (c *TCPConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.e.write(b)
}

// Close see net.TCPConn
func (c *TCPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	return c.e.closeAll()
}

// LocalAddr see net.TCPConn
func (c *TCPConn) LocalAddr() net.Addr { return nil }

// RemoteAddr see net.TCPConn
func (c *TCPConn) RemoteAddr() net.Addr { return nil }

// SetDeadline see net.TCPConn
func (c *TCPConn) SetDeadline(t time.Time) error { return c.state() }

// SetReadDeadline see net.TCPConn
func (c *TCPConn) SetReadDeadline(t time.Time) error { return c.state() }

// SetWriteDeadline see net.TCPConn
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return c.state() }

// SetReadBuffer see net.TCPConn
func (c *TCPConn) SetReadBuffer(bytes int) error { return c.state() }

// SetWriteBuffer see net.TCPConn
func (c *TCPConn) SetWriteBuffer(bytes int) error { return c.state() }

// CloseRead see net.TCPConn
func (c *TCPConn) CloseRead() error { return c.state() }

// CloseWrite see net.TCPConn
func (c *TCPConn) CloseWrite() error { return c.state() }

// UnixConn see net.UnixConn
type UnixConn struct{ e *Endpoint }

func (c *UnixConn) state() error {
	if c == nil {
		return syscall.EINVAL
	}
	return nil
}

// Read see net.UnixConn
func (c *UnixConn) Read(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.e.read(b)
}

// Write see net.UnixConn
func (c *UnixConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	return c.e.write(b)
}

// Close see net.UnixConn
func (c *UnixConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	return c.e.closeAll()
}

// LocalAddr see net.UnixConn
func (c *UnixConn) LocalAddr() net.Addr { return nil }

// RemoteAddr see net.UnixConn
func (c *UnixConn) RemoteAddr() net.Addr { return nil }

// SetDeadline see net.UnixConn
func (c *UnixConn) SetDeadline(t time.Time) error { return c.state() }

// SetReadDeadline see net.UnixConn
func (c *UnixConn) SetReadDeadline(t time.Time) error { return c.state() }

// SetWriteDeadline see net.UnixConn
func (c *UnixConn) SetWriteDeadline(t time.Time) error { return c.state() }

// SetReadBuffer see net.UnixConn
func (c *UnixConn) SetReadBuffer(bytes int) error { return c.state() }

// SetWriteBuffer see net.UnixConn
func (c *UnixConn) SetWriteBuffer(bytes int) error { return c.state() }

// CloseRead see net.UnixConn
func (c *UnixConn) CloseRead() error { return c.state() }

// CloseWrite see net.UnixConn
func (c *UnixConn) CloseWrite() error { return c.state() }
