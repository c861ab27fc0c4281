// Package simnet is the simulated network: in-memory connections with seeded latency and faults.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// Net is the simulated network.
type Net struct {
	k         *kit.Kit
	listeners map[string]*listener
	conns     []*conn
	nextPort  int
	rng       *kit.Rng
	// Latency bounds of one segment.
	LatMin, LatMax time.Duration
	// Faults draws network faults for a connection to addr ("" disables).
	FaultSite func(addr string) string
	blocked   map[string]bool // partitioned listener addresses
	NumDials  int
}

// New installs a simulated network.
func New(k *kit.Kit) *Net {
	n := &Net{k: k, listeners: map[string]*listener{}, nextPort: 40000, rng: k.Rand("net"), LatMin: 20 * time.Microsecond, LatMax: 300 * time.Microsecond, blocked: map[string]bool{}}
	net.VerifDial = n.dial
	net.VerifListen = n.listen
	k.OnKill(n.killNode)
	return n
}

type addr struct{ network, s string }

func (a addr) Network() string { return a.network }
func (a addr) String() string  { return a.s }

func norm(network, a string) string {
	if strings.HasPrefix(network, "unix") {
		return a
	}
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	switch h {
	case "", "0.0.0.0", "::", "localhost", "::1", "[::]":
		h = "127.0.0.1"
	}
	switch p {
	case "http":
		p = "80"
	case "https":
		p = "443"
	}
	return h + ":" + p
}

type listener struct {
	n      *Net
	addr   string
	a      net.Addr
	node   uint32
	q      []*conn
	wake   chan struct{}
	closed bool
}

func tcpAddr(network, s string) net.Addr {
	if strings.HasPrefix(network, "tcp") {
		h, p, _ := net.SplitHostPort(s)
		port, _ := strconv.Atoi(p)
		ip := net.ParseIP(h)
		if ip == nil {
			x := kit.Hash64(h)
			ip = net.IPv4(10, byte(x), byte(x>>8), byte(x>>16))
		}
		return &net.TCPAddr{IP: ip, Port: port}
	}
	return addr{network, s}
}

func (n *Net) listen(network, address string) (net.Listener, error) {
	a := norm(network, address)
	if strings.HasSuffix(a, ":0") {
		n.nextPort++
		a = strings.TrimSuffix(a, "0") + strconv.Itoa(n.nextPort)
	}
	if l := n.listeners[a]; l != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: tcpAddr(network, a), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, addr: a, a: tcpAddr(network, a), node: runtime.VerifNode(), wake: make(chan struct{}, 1)}
	n.listeners[a] = l
	runtime.VerifWake()
	return l, nil
}

// Listen opens a listener of the calling node.
func (n *Net) Listen(address string) net.Listener {
	l, err := n.listen("tcp", address)
	if err != nil {
		panic(err)
	}
	return l
}

// Listening tells whether somebody listens on the address.
func (n *Net) Listening(address string) bool { return n.listeners[norm("tcp", address)] != nil }

func (l *listener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			if len(l.q) > 0 {
				poke(l.wake)
			}
			return c, nil
		}
		<-l.wake
	}
}

func (l *listener) Close() error {
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	if l.n.listeners[l.addr] == l {
		delete(l.n.listeners, l.addr)
	}
	poke(l.wake)
	for _, c := range l.q {
		c.abort(syscall.ECONNRESET)
	}
	return nil
}

func (l *listener) Addr() net.Addr { return l.a }

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

type segment struct {
	at int64
	b  []byte
}

type pipe struct {
	segs []segment
	last int64
	eof  int64 // virtual time at which the reader sees EOF (0: open)
	err  error
	wake chan struct{}
}

type conn struct {
	n        *Net
	node     uint32
	peer     *conn
	in       *pipe // what this side reads
	out      *pipe
	laddr    net.Addr
	raddr    net.Addr
	target   string
	closed   bool
	rd, wd   time.Time
	outbound bool
	stall    bool
}

// Partition makes the listener address unreachable (true) or reachable again.
func (n *Net) Partition(address string, on bool) {
	a := norm("tcp", address)
	n.blocked[a] = on
	n.k.Tracef("PARTITION %s %v", a, on)
	if on {
		for _, c := range n.conns {
			if c.target == a && !c.closed {
				c.stall = true
			}
		}
	} else {
		for _, c := range n.conns {
			if c.target == a && c.stall {
				c.stall = false
				poke(c.in.wake)
			}
		}
	}
}

func (n *Net) lat() int64 {
	d := int64(n.LatMax - n.LatMin)
	if d <= 0 {
		return int64(n.LatMin)
	}
	// mostly short, sometimes long
	x := int64(n.LatMin) + int64(n.rng.U64()%uint64(d))
	if n.rng.Chance(3, 4) {
		x = int64(n.LatMin) + (x-int64(n.LatMin))/8
	}
	return x
}

func (n *Net) dial(ctx context.Context, network, address string) (net.Conn, error) {
	n.NumDials++
	a := norm(network, address)
	opErr := func(err error) error {
		return &net.OpError{Op: "dial", Net: network, Addr: tcpAddr(network, a), Err: err}
	}
	d := time.Duration(n.lat())
	fail := error(nil)
	if n.FaultSite != nil {
		if site := n.FaultSite(a); site != "" {
			if f := n.k.Draw(site+".dial", kit.KindProb{Kind: "refused", Weight: 3}, kit.KindProb{Kind: "slow", Weight: 2, ArgMin: 1e6, ArgMax: 3e9, LogScale: true}, kit.KindProb{Kind: "timeout", Weight: 1}); f != nil {
				switch f.Kind {
				case "refused":
					fail = os.NewSyscallError("connect", syscall.ECONNREFUSED)
				case "slow":
					d += time.Duration(f.Arg)
				case "timeout":
					d, fail = 127*time.Second, os.NewSyscallError("connect", syscall.ETIMEDOUT)
				}
			}
		}
	}
	if n.blocked[a] {
		d, fail = 127*time.Second, os.NewSyscallError("connect", syscall.ETIMEDOUT)
	}
	t := time.NewTimer(d)
	select {
	case <-t.C:
	case <-ctx.Done():
		t.Stop()
		if errors.Is(ctx.Err(), context.DeadlineExceeded) {
			return nil, opErr(os.ErrDeadlineExceeded)
		}
		return nil, opErr(ctx.Err())
	}
	if fail != nil {
		return nil, opErr(fail)
	}
	l := n.listeners[a]
	if l == nil || runtime.VerifDead(l.node) {
		return nil, opErr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	x := &pipe{wake: make(chan struct{}, 1)}
	y := &pipe{wake: make(chan struct{}, 1)}
	cl := &conn{n: n, node: runtime.VerifNode(), in: x, out: y, laddr: tcpAddr("tcp", "127.0.0.1:"+strconv.Itoa(n.nextPort)), raddr: l.a, target: a, outbound: true}
	if strings.HasPrefix(network, "unix") {
		cl.laddr = addr{"unix", "@"}
	}
	sv := &conn{n: n, node: l.node, in: y, out: x, laddr: l.a, raddr: cl.laddr, target: a}
	cl.peer, sv.peer = sv, cl
	n.conns = append(n.conns, cl, sv)
	l.q = append(l.q, sv)
	poke(l.wake)
	return cl, nil
}

func (c *conn) Read(b []byte) (int, error) {
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: net.ErrClosed}
		}
		now := runtime.VerifMono()
		next := int64(0)
		if !c.stall && !c.peer.stall {
			if len(c.in.segs) > 0 {
				s := &c.in.segs[0]
				if s.at <= now {
					n := copy(b, s.b)
					if n == len(s.b) {
						c.in.segs = c.in.segs[1:]
					} else {
						s.b = s.b[n:]
					}
					return n, nil
				}
				next = s.at
			} else if c.in.eof != 0 {
				if c.in.eof <= now {
					if c.in.err != nil {
						return 0, &net.OpError{Op: "read", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.NewSyscallError("read", c.in.err)}
					}
					return 0, io.EOF
				}
				next = c.in.eof
			}
		}
		if !c.rd.IsZero() {
			d := time.Until(c.rd)
			if d <= 0 {
				return 0, &net.OpError{Op: "read", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.ErrDeadlineExceeded}
			}
			if next == 0 || now+int64(d) < next {
				next = now + int64(d)
			}
		}
		if next == 0 {
			<-c.in.wake
			continue
		}
		t := time.NewTimer(time.Duration(next - now))
		select {
		case <-c.in.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: net.ErrClosed}
	}
	if c.peer.closed || c.in.err != nil {
		return 0, &net.OpError{Op: "write", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if !c.wd.IsZero() && time.Until(c.wd) <= 0 {
		return 0, &net.OpError{Op: "write", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.ErrDeadlineExceeded}
	}
	extra := int64(0)
	if c.n.FaultSite != nil {
		if site := c.n.FaultSite(c.target); site != "" {
			if f := c.n.k.Draw(site+".seg", kit.KindProb{Kind: "reset", Weight: 3}, kit.KindProb{Kind: "delay", Weight: 3, ArgMin: 1e6, ArgMax: 20e9, LogScale: true}, kit.KindProb{Kind: "truncate", Weight: 2}); f != nil {
				switch f.Kind {
				case "reset":
					c.abort(syscall.ECONNRESET)
					return 0, &net.OpError{Op: "write", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.NewSyscallError("write", syscall.ECONNRESET)}
				case "delay":
					extra = f.Arg
				case "truncate":
					c.push(b[:len(b)/2], 0)
					c.abort(syscall.ECONNRESET)
					return 0, &net.OpError{Op: "write", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: os.NewSyscallError("write", syscall.ECONNRESET)}
				}
			}
		}
	}
	c.push(b, extra)
	return len(b), nil
}

func (c *conn) push(b []byte, extra int64) {
	at := runtime.VerifMono() + c.n.lat() + extra
	if at < c.out.last {
		at = c.out.last
	}
	c.out.last = at
	if len(b) > 0 {
		c.out.segs = append(c.out.segs, segment{at, append([]byte(nil), b...)})
	}
	poke(c.out.wake)
}

func (c *conn) fin(err error) {
	if c.out.eof == 0 {
		at := runtime.VerifMono() + c.n.lat()
		if at < c.out.last {
			at = c.out.last
		}
		c.out.eof, c.out.err = at, err
		poke(c.out.wake)
	}
}

// abort resets the connection for both sides.
func (c *conn) abort(err error) {
	c.fin(err)
	// This side knows at once; what is still on its way is lost.
	now := runtime.VerifMono()
	for i, s := range c.in.segs {
		if s.at > now {
			c.in.segs = c.in.segs[:i]
			break
		}
	}
	c.in.eof, c.in.err = now, err
	c.in.last = now
	poke(c.in.wake)
}

func (c *conn) Close() error {
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: net.ErrClosed}
	}
	c.closed = true
	poke(c.in.wake)
	c.fin(nil)
	return nil
}

// CloseWrite half-closes the connection.
func (c *conn) CloseWrite() error { c.fin(nil); return nil }

func (c *conn) LocalAddr() net.Addr                { return c.laddr }
func (c *conn) RemoteAddr() net.Addr               { return c.raddr }
func (c *conn) SetDeadline(t time.Time) error      { c.rd, c.wd = t, t; poke(c.in.wake); return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { c.rd = t; poke(c.in.wake); return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.wd = t; return nil }

// PeerNode returns the node at the other end of a simulated connection.
func PeerNode(c net.Conn) uint32 {
	if sc, ok := c.(*conn); ok {
		return sc.peer.node
	}
	return 0
}

// Abort resets a simulated connection.
func Abort(c net.Conn) {
	if sc, ok := c.(*conn); ok {
		sc.abort(syscall.ECONNRESET)
		sc.closed = true
	}
}

func (n *Net) killNode(node uint32) {
	for a, l := range n.listeners {
		if l.node == node {
			l.closed = true
			delete(n.listeners, a)
		}
	}
	live := n.conns[:0]
	for _, c := range n.conns {
		if c.node == node && !c.closed {
			c.closed = true
			c.fin(syscall.ECONNRESET)
		}
		if !(c.closed && c.peer.closed) {
			live = append(live, c)
		}
	}
	n.conns = live
}

// Open counts the open connections of a node.
func (n *Net) Open(node uint32) (k int) {
	for _, c := range n.conns {
		if c.node == node && !c.closed {
			k++
		}
	}
	return
}
