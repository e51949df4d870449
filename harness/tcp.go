package main

import (
	"encoding/binary"
	"time"

	"vshim/vnet"
	"vshim/vsched"
)

// collectorEnd is the collector's side of all connections an agent makes.
type collectorEnd struct {
	x     *X
	peers []*vnet.Peer
	ats   []int64
	tos   []int64
	// refuse decides about the n-th dial.
	refuse func(n int) error
	// prepare is told of each connection before the agent has it.
	prepare func(n int, p *vnet.Peer)
}

// listen accepts the agent's connections.
func listen(x *X) *collectorEnd {
	c := &collectorEnd{x: x}
	vnet.OnDial = func(addr string, d time.Duration) (*vnet.Peer, error) {
		c.ats = append(c.ats, vsched.Now())
		c.tos = append(c.tos, int64(d))
		if c.refuse != nil {
			if err := c.refuse(len(c.ats) - 1); err != nil {
				return nil, err
			}
		}
		p := &vnet.Peer{}
		if c.prepare != nil {
			c.prepare(len(c.ats)-1, p)
		}
		c.peers = append(c.peers, p)
		return p, nil
	}
	return c
}

// wait returns the n-th connection (from 0) once its greeting has arrived, nil if it does not within a minute.
func (c *collectorEnd) wait(n int) *conn {
	vsched.BlockUntil("collector waits for a connection", func() bool { return len(c.peers) > n && (len(c.peers[n].Out) >= 8 || c.peers[n].AgentDone) }, vsched.Now()+120000*ms)
	if len(c.peers) <= n || len(c.peers[n].Out) < 8 {
		return nil
	}
	return &conn{p: c.peers[n], off: 8, x: c.x}
}

// connect waits for the n-th connection and checks its greeting.
func (c *collectorEnd) connect(n int, obj string) *conn {
	k := c.wait(n)
	c.x.Check(k != nil, "the agent made %d connections, %d expected", len(c.peers), n+1)
	r := &rd{b: k.p.Out}
	m, h := r.i32(), r.i32()
	c.x.Check(uint32(m) == 0xCAFE1002 && h == hash(obj), "connection %d greets with %x %x, expected the hash of %s", n, uint32(m), uint32(h), obj)
	return k
}

type conn struct {
	x   *X
	p   *vnet.Peer
	off int
}

// answer parses one complete answer at off: parts and the offset behind it, or false if more bytes are needed.
func (k *conn) answer(stream bool) (parts [][]byte, end int, done bool) {
	b := k.p.Out
	o := k.off
	for {
		if o >= len(b) {
			return nil, o, false
		}
		switch b[o] {
		case 4:
			return parts, o + 1, true
		case 3:
			o++
		default:
			k.x.Failf("answer has flag %d at byte %d", b[o], o)
		}
		n := 0
		if stream {
			if o >= len(b) {
				return nil, o, false
			}
			n = int(b[o])
			o++
			switch n {
			case 255:
				if o+2 > len(b) {
					return nil, o, false
				}
				n = int(binary.BigEndian.Uint16(b[o:]))
				o += 2
			case 254:
				if o+4 > len(b) {
					return nil, o, false
				}
				n = int(binary.BigEndian.Uint32(b[o:]))
				o += 4
			}
		} else {
			if o+4 > len(b) {
				return nil, o, false
			}
			n = int(int32(binary.BigEndian.Uint32(b[o:])))
			o += 4
			k.x.Check(n >= 0, "answer of %d bytes", n)
		}
		if o+n > len(b) {
			return nil, o, false
		}
		parts = append(parts, b[o:o+n])
		o += n
	}
}

// next waits for one answer.
func (k *conn) next(stream bool) ([][]byte, bool) {
	vsched.BlockUntil("collector waits for an answer", func() bool {
		_, _, done := k.answer(stream)
		return done || k.p.AgentDone
	}, vsched.Now()+200000*ms)
	parts, end, done := k.answer(stream)
	if done {
		k.off = end
	}
	return parts, done
}

// ask sends one command and returns the single map pack of its answer, nil if there is none.
func (k *conn) ask(cmd string, param map[string]interface{}) wMap {
	l := k.asks(cmd, param)
	if len(l) == 0 {
		return nil
	}
	k.x.Check(len(l) == 1, "%s: %d packs in the answer", cmd, len(l))
	m, ok := l[0].(wMap)
	k.x.Check(ok, "%s: answer is %T", cmd, l[0])
	return m
}

func (k *conn) asks(cmd string, param map[string]interface{}) []interface{} {
	k.p.Send(request(cmd, param))
	parts, ok := k.next(false)
	k.x.Check(ok, "%s was not answered", cmd)
	return k.packs(cmd, parts)
}

func (k *conn) packs(cmd string, parts [][]byte) (l []interface{}) {
	for _, b := range parts {
		r := &rd{b: b}
		p := r.pack()
		k.x.Check(r.err == nil && r.left() == 0, "%s: malformed answer: %v, %d bytes left", cmd, r.err, r.left())
		l = append(l, p)
	}
	return
}

// stream sends one command and returns the blobs of its answer.
func (k *conn) stream(cmd string, param map[string]interface{}) [][]byte {
	k.p.Send(request(cmd, param))
	parts, ok := k.next(true)
	k.x.Check(ok, "%s was not answered", cmd)
	return parts
}

// quiet requires that nothing beyond the answers was sent.
func (k *conn) quiet(what string) {
	k.x.Check(len(k.p.Out) == k.off, "%s: %d bytes sent beyond the answers", what, len(k.p.Out)-k.off)
}

func strList(x *X, m wMap, key string) []string {
	l, ok := m[key].([]interface{})
	x.Check(ok, "answer has no list %s", key)
	out := []string{}
	for _, v := range l {
		s, ok := v.(string)
		x.Check(ok, "list %s holds a %T", key, v)
		out = append(out, s)
	}
	return out
}
