package main

import (
	"fmt"
	"hash/crc32"
	"sort"
	"strings"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/verifreg"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vsched"
)

type X = vsched.X
type Scenario = vsched.Scenario
type Property = vsched.Property
type Config = vsched.Config

var props []*Property

func register(p *Property) {
	for _, s := range p.Scenarios {
		if s.MaxCost == 0 || s.One {
			continue
		}
		s.Name += "/recent"
		s.Cfg.Recent = true
		if s.Recent > 0 {
			s.MaxCost = s.Recent
		}
		p.Scenarios = append(p.Scenarios, s)
	}
	props = append(props, p)
}

const (
	ms       = int64(time.Millisecond)
	confPath = "/app/scouter/conf/scouter.conf"
	dumpDir  = "/app/scouter/dump"
	binDir   = "/app/scouter/binary_dump"
	logFile  = "/app/scouter/logs/scouter.log"
	objHash0 = "/host/go1"
)

// boot writes the configuration file and initialises the target's packages.
func boot(cfg string, pkgs ...string) {
	if cfg != "" {
		vos.Put(confPath, cfg)
	}
	contexts = 0
	verifreg.Reset(pkgs...)
}

// drain ends exploration and lets the agent send what it has queued.
func drain() {
	vsched.Explore(false)
	vsched.Settle()
	vsched.Sleep(500 * ms)
	vsched.Settle()
}

func hash(s string) int32 { return int32(crc32.ChecksumIEEE([]byte(s))) }

// capture is everything the collector received.
type capture struct {
	xlogs    []*wXLog
	profiles []*wProfile
	texts    []*wText
	alerts   []*wAlert
	perfs    []*wPerf
	objs     []*wObj
	others   []interface{}
	at       map[interface{}]int64
	raw      int
	bad      string
}

type mtuKey struct {
	to string
	id int64
}

// collect decodes all datagrams, or those of one address.
func collect(to string) *capture {
	c := &capture{at: map[interface{}]int64{}}
	frag := map[mtuKey]map[int][]byte{}
	total := map[mtuKey]int{}
	var order []mtuKey
	for _, d := range vnet.Datagrams {
		if to != "" && d.To != to {
			continue
		}
		c.raw++
		if len(d.Data) < 4 {
			c.fail("datagram of %d bytes", len(d.Data))
			continue
		}
		r := &rd{b: d.Data[4:]}
		switch string(d.Data[:4]) {
		case "CAFE":
			c.add(r, d.At)
			if r.err == nil && r.left() != 0 {
				r.fail("%d bytes after the pack", r.left())
			}
		case "CAFN":
			n := int(int16(r.u16()))
			if n < 0 {
				r.fail("pack count %d", n)
			}
			for i := 0; i < n && r.err == nil; i++ {
				c.add(r, d.At)
			}
			if r.err == nil && r.left() != 0 {
				r.fail("%d bytes after %d packs", r.left(), n)
			}
		case "CAFM":
			r.i32()
			k := mtuKey{d.To, r.i64()}
			tot, num := r.u16(), r.u16()
			b := r.blob()
			if r.err == nil && r.left() != 0 {
				r.fail("%d bytes after the fragment", r.left())
			}
			if r.err == nil {
				if frag[k] == nil {
					frag[k] = map[int][]byte{}
					total[k] = tot
					order = append(order, k)
				}
				if total[k] != tot || num >= tot {
					r.fail("fragment %d of %d (was %d)", num, tot, total[k])
				}
				if _, ok := frag[k][num]; ok {
					r.fail("fragment %d twice", num)
				}
				frag[k][num] = b
				if len(frag[k]) == tot {
					var all []byte
					for i := 0; i < tot; i++ {
						all = append(all, frag[k][i]...)
					}
					q := &rd{b: all}
					c.add(q, d.At)
					if q.err == nil && q.left() != 0 {
						q.fail("%d bytes after the reassembled pack", q.left())
					}
					if q.err != nil {
						r.fail("reassembled: %v", q.err)
					}
					delete(frag, k)
				}
			}
		default:
			r.fail("prefix %q", d.Data[:4])
		}
		if r.err != nil {
			c.fail("datagram to %s: %v", d.To, r.err)
		}
	}
	for _, k := range order {
		if f, ok := frag[k]; ok {
			c.fail("fragments of pack %d incomplete: %d of %d", k.id, len(f), total[k])
		}
	}
	return c
}

func (c *capture) fail(f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = fmt.Sprintf(f, a...)
	}
}

func (c *capture) add(r *rd, at int64) {
	p := r.pack()
	if r.err != nil {
		return
	}
	c.at[p] = at
	switch t := p.(type) {
	case *wXLog:
		c.xlogs = append(c.xlogs, t)
	case *wProfile:
		c.profiles = append(c.profiles, t)
	case *wText:
		c.texts = append(c.texts, t)
	case *wAlert:
		c.alerts = append(c.alerts, t)
	case *wPerf:
		c.perfs = append(c.perfs, t)
	case *wObj:
		c.objs = append(c.objs, t)
	default:
		c.others = append(c.others, p)
	}
}

// received decodes everything and requires it to be well formed.
func received(x *X) *capture {
	c := collect("")
	x.Check(c.bad == "", "malformed data reached the collector: %s", c.bad)
	return c
}

func (c *capture) xlogsOf(txid int64) (l []*wXLog) {
	for _, p := range c.xlogs {
		if p.Txid == txid {
			l = append(l, p)
		}
	}
	return
}

func (c *capture) profilesOf(txid int64) (l []*wProfile) {
	for _, p := range c.profiles {
		if p.Txid == txid {
			l = append(l, p)
		}
	}
	return
}

// stepsOf returns all steps received for a transaction in index order.
func (c *capture) stepsOf(txid int64) (l []wStep) {
	for _, p := range c.profilesOf(txid) {
		l = append(l, p.Steps...)
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].Index < l[j].Index })
	return
}

func (c *capture) size(txid int64) (n int) {
	for _, p := range c.profilesOf(txid) {
		n += p.Size
	}
	return
}

func (c *capture) lookup(kind string, h int32) (string, bool) {
	for _, t := range c.texts {
		if t.X == kind && t.Hash == h {
			return t.Text, true
		}
	}
	return "", false
}

func (c *capture) textCount(kind, s string) (n int) {
	for _, t := range c.texts {
		if t.X == kind && t.Text == s {
			n++
		}
	}
	return
}

func lines(kv ...string) string { return strings.Join(kv, "\n") + "\n" }

func stepText(s wStep) string {
	return fmt.Sprintf("%d/%d<%d %q h%x", s.Type, s.Index, s.Parent, s.Text, uint32(s.Hash))
}

// par runs the functions as concurrent threads and waits for them.
func par(fs ...func()) {
	ths := make([]*vsched.Th, len(fs))
	for i, f := range fs {
		ths[i] = vsched.Go(fmt.Sprintf("op%d", i), f)
	}
	vsched.Rank(ths...)
	vsched.Join(ths...)
}

func sortedKeys(m map[string]interface{}) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// xid32 is the text form of an id: sign letter and base 32 digits.
func xid32(v int64) string {
	const dg = "0123456789abcdefghijklmnopqrstuv"
	s := "x"
	u := uint64(v)
	if v < 0 {
		s = "z"
		u = -u
	}
	if u == 0 {
		return s + "0"
	}
	var b []byte
	for ; u > 0; u /= 32 {
		b = append([]byte{dg[u%32]}, b...)
	}
	return s + string(b)
}

func dur(ns int64) time.Duration { return time.Duration(ns) }
