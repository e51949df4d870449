// Package vnet replaces net: UDP datagrams are recorded, TCP connections are scripted by the harness.
package vnet

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
	"vshim/vsched"
)

// Datagram is one recorded UDP send.
type Datagram struct {
	To   string
	Data []byte
	At   int64
	Sock int
}

var (
	Datagrams []Datagram
	// UDPFail makes name resolution or dialling of an address fail.
	UDPFail map[string]bool
	// UDPWriteFault lets the explorer fail a UDP write.
	UDPWriteFault bool
	// WriteErrs counts writes to closed sockets.
	WriteErrs int
	OpenUDP   int
	sockSeq   int

	// OnDial decides what happens to a TCP dial.
	OnDial func(addr string, timeout time.Duration) (*Peer, error)
	Dials  []string
)

func init() {
	vsched.OnReset(func() {
		Datagrams, UDPFail, UDPWriteFault, WriteErrs, OpenUDP, sockSeq, OnDial, Dials = nil, map[string]bool{}, false, 0, 0, 0, nil, nil
	})
}

func resolve(address string) (string, net.IP, int, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return "", nil, 0, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return "", nil, 0, &net.AddrError{Err: "invalid port", Addr: port}
	}
	if UDPFail["resolve:"+host] || UDPFail["resolve:*"] {
		return "", nil, 0, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	if host == "localhost" || host == "" {
		host = "127.0.0.1"
	}
	ip := net.ParseIP(host)
	if ip == nil {
		return "", nil, 0, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return net.JoinHostPort(host, port), ip, p, nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	vsched.Point("resolve")
	_, ip, p, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.UDPAddr{IP: ip, Port: p}, nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	vsched.Point("resolve")
	_, ip, p, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}

func LookupHost(h string) ([]string, error) {
	_, ip, _, err := resolve(net.JoinHostPort(h, "1"))
	if err != nil {
		return nil, err
	}
	return []string{ip.String()}, nil
}

type UDPConn struct {
	to     string
	addr   *net.UDPAddr
	id     int
	closed bool
}

func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	vsched.Point("DialUDP")
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	to := raddr.String()
	if UDPFail["dial:"+to] || UDPFail["dial:*"] {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: syscall.ENETUNREACH}
	}
	sockSeq++
	OpenUDP++
	return &UDPConn{to: to, addr: raddr, id: sockSeq}, nil
}

// MaxDatagram is the largest UDP payload.
const MaxDatagram = 65507

func (c *UDPConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vsched.Point("udp write")
	if c.closed {
		WriteErrs++
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	if len(b) > MaxDatagram {
		WriteErrs++
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.EMSGSIZE}
	}
	if UDPFail["write:*"] {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.ECONNREFUSED}
	}
	if UDPWriteFault && vsched.Fault(2, "udp write fails") == 1 {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: syscall.ECONNREFUSED}
	}
	Datagrams = append(Datagrams, Datagram{To: c.to, Data: append([]byte{}, b...), At: vsched.Now(), Sock: c.id})
	return len(b), nil
}
func (c *UDPConn) Read(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vsched.Block("udp read", func() bool { return c.closed })
	return 0, net.ErrClosed
}
func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	vsched.Point("udp close")
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	OpenUDP--
	return nil
}
func (c *UDPConn) LocalAddr() net.Addr {
	if c == nil {
		return nil
	}
	return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + c.id}
}
func (c *UDPConn) RemoteAddr() net.Addr {
	if c == nil {
		return nil
	}
	return c.addr
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) WriteTo(b []byte, a net.Addr) (int, error) {
	return c.Write(b)
}

// Peer is the collector's end of a TCP connection.
type Peer struct {
	In        [][]byte // chunks still to be delivered to the agent
	InClosed  bool     // end of stream after In
	Reset     bool     // reads and writes fail
	Out       []byte   // bytes the agent wrote
	AgentDone bool     // the agent closed its end
	FailWrite int      // fail the n-th write from now (1: next); 0: never
	Stall     bool     // the collector does not read: writes block beyond Room bytes
	Room      int
	ShortRead bool // the explorer may cut a delivered chunk
	Addr      string
	Conn      *TCPConn
	Deadlines []int64
}

// Send queues a chunk for the agent.
func (p *Peer) Send(b []byte) { p.In = append(p.In, append([]byte{}, b...)) }

// WaitOut blocks until the agent has written n bytes in total, closed, or d passed; true on success.
func (p *Peer) WaitOut(n int, d time.Duration) bool {
	vsched.BlockUntil("peer waits for output", func() bool { return len(p.Out) >= n || p.AgentDone }, vsched.Now()+int64(d))
	return len(p.Out) >= n
}

type TCPConn struct {
	p        *Peer
	deadline int64
	wdl      int64
	closed   bool
	raddr    *net.TCPAddr
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	vsched.Point("tcp dial " + address)
	if network == "udp" {
		a, err := ResolveUDPAddr(network, address)
		if err != nil {
			return nil, err
		}
		return DialUDP(network, nil, a)
	}
	Dials = append(Dials, address)
	to, ip, port, err := resolve(address)
	if err != nil {
		return nil, err
	}
	if OnDial == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	p, err := OnDial(to, d)
	if err != nil {
		return nil, err
	}
	c := &TCPConn{p: p, raddr: &net.TCPAddr{IP: ip, Port: port}}
	p.Conn = c
	p.Addr = to
	return c, nil
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	c, err := DialTimeout(network, raddr.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

func (c *TCPConn) Read(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vsched.Point("tcp read")
	if c.closed {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	}
	if len(b) == 0 {
		return 0, nil
	}
	p := c.p
	if c.deadline != 0 && c.deadline <= vsched.Now() {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
	}
	if len(p.In) == 0 && !p.InClosed && !p.Reset {
		vsched.BlockUntil("tcp read", func() bool {
			return len(p.In) > 0 || p.InClosed || p.Reset || c.closed
		}, c.deadline)
	}
	switch {
	case c.closed:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case p.Reset:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	case len(p.In) > 0:
		k := copy(b, p.In[0])
		if p.ShortRead && k > 1 && vsched.Fault(2, "short tcp read") == 1 {
			k = 1
		}
		if k == len(p.In[0]) {
			p.In = p.In[1:]
		} else {
			p.In[0] = p.In[0][k:]
		}
		return k, nil
	case p.InClosed:
		return 0, io.EOF
	}
	return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	vsched.Point("tcp write")
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.p.Reset {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	if c.p.FailWrite > 0 {
		c.p.FailWrite--
		if c.p.FailWrite == 0 {
			c.p.Reset = true
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
		}
	}
	n := 0
	for c.p.Stall {
		k := len(b) - n
		if k > c.p.Room {
			k = c.p.Room
		}
		c.p.Out = append(c.p.Out, b[n:n+k]...)
		c.p.Room -= k
		n += k
		if n == len(b) {
			return n, nil
		}
		if c.wdl != 0 && c.wdl <= vsched.Now() {
			return n, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}
		}
		vsched.BlockUntil("tcp write", func() bool { return !c.p.Stall || c.p.Room > 0 || c.p.Reset || c.closed }, c.wdl)
		if c.closed {
			return n, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if c.p.Reset {
			return n, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
		}
	}
	c.p.Out = append(c.p.Out, b[n:]...)
	return len(b), nil
}
func (c *TCPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	vsched.Point("tcp close")
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.p.AgentDone = true
	return nil
}
func (c *TCPConn) CloseRead() error  { return nil }
func (c *TCPConn) CloseWrite() error { return c.Close() }
func (c *TCPConn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000}
}
func (c *TCPConn) RemoteAddr() net.Addr { return c.raddr }
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(vsched.Epoch))
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	if c.closed {
		return net.ErrClosed
	}
	c.deadline = dl(t)
	c.p.Deadlines = append(c.p.Deadlines, c.deadline-vsched.Now())
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error       { c.wdl = dl(t); return nil }
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetLinger(int) error                      { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }
