package main

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of a buffered in-memory connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	dead   bool // deadline of the reader is over
}

type pconn struct {
	in, out *half
	tm      *time.Timer
}

func pipe() (net.Conn, net.Conn) {
	x, y := &half{}, &half{}
	x.cond, y.cond = sync.NewCond(&x.mu), sync.NewCond(&y.mu)
	return &pconn{in: x, out: y}, &pconn{in: y, out: x}
}

func (c *pconn) Read(p []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 {
		if h.closed {
			return 0, io.EOF
		}
		if h.dead {
			return 0, os.ErrDeadlineExceeded
		}
		h.cond.Wait()
	}
	n := copy(p, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (c *pconn) Write(p []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, io.ErrClosedPipe
	}
	h.buf = append(h.buf, p...)
	h.cond.Broadcast()
	return len(p), nil
}

func (c *pconn) Close() error {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.closed = true
		h.cond.Broadcast()
		h.mu.Unlock()
	}
	return nil
}

func (c *pconn) LocalAddr() net.Addr           { return &net.TCPAddr{} }
func (c *pconn) RemoteAddr() net.Addr          { return &net.TCPAddr{} }
func (c *pconn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *pconn) SetReadDeadline(t time.Time) error {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	if c.tm != nil {
		c.tm.Stop()
	}
	h.dead = !t.IsZero() && !t.After(time.Now())
	if h.dead {
		h.cond.Broadcast()
	} else if !t.IsZero() {
		c.tm = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.dead = true
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	return nil
}
func (c *pconn) SetWriteDeadline(t time.Time) error { return nil }
