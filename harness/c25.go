package main

import (
	"fmt"
	"sort"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"
	"vshim/vsched"
)

// cop is an operation on a cache: a(dd) r(emove) g(et) c(ontains) s(ize) e(mpty) v(alues) z: clear.
type cop struct {
	op   byte
	k, v int
}

func (o cop) String() string {
	switch o.op {
	case 'a':
		return fmt.Sprintf("add %d=%d", o.k, o.v)
	case 'r':
		return fmt.Sprintf("remove %d", o.k)
	case 'g':
		return fmt.Sprintf("get %d", o.k)
	case 'c':
		return fmt.Sprintf("contains %d", o.k)
	}
	return map[byte]string{'s': "size", 'e': "empty", 'v': "values", 'z': "clear"}[o.op]
}

// cmodel is the reference: entries in the order they were added.
type cmodel struct {
	kind string // lra cachemap cachemap2 cacheset
	cap  int
	e    []cop
	out  []cop // evicted
}

func (m *cmodel) find(k int) int {
	for i, e := range m.e {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *cmodel) do(o cop) string {
	i := m.find(o.k)
	switch o.op {
	case 'a':
		if i >= 0 {
			if m.kind == "lra" {
				m.e = append([]cop{}, m.e...)
				m.e[i].v = o.v
			}
			return ""
		}
		m.e = append(append([]cop{}, m.e...), cop{'a', o.k, o.v})
		if m.cap > 0 && len(m.e) > m.cap {
			m.out = append(m.out[:len(m.out):len(m.out)], m.e[0])
			m.e = m.e[1:]
		}
	case 'r':
		if i >= 0 && m.kind != "cacheset" {
			m.out = append(m.out[:len(m.out):len(m.out)], m.e[i])
			m.e = append(append([]cop{}, m.e[:i]...), m.e[i+1:]...)
		}
	case 'z':
		m.out = append(m.out[:len(m.out):len(m.out)], m.e...)
		m.e = nil
	case 'g':
		if i >= 0 {
			return fmt.Sprint(m.e[i].v)
		}
		return "<nil>"
	case 'c':
		return fmt.Sprint(i >= 0)
	case 's':
		return fmt.Sprint(len(m.e))
	case 'e':
		return fmt.Sprint(len(m.e) == 0)
	case 'v':
		var l []string
		for _, e := range m.e {
			l = append(l, fmt.Sprint(e.v))
		}
		if m.kind == "cachemap2" {
			sort.Strings(l)
		}
		return fmt.Sprint(l)
	}
	return ""
}

func (m *cmodel) state() string { return fmt.Sprint(m.e) }

// cache is one of the target's caches.
type cache struct {
	kind string
	l    *lra.Cache
	m    *cachemap.CacheMap
	m2   *cachemap2.CacheMap
	s    *cacheset.CacheSet
	out  []cop
}

func newCache(kind string, cp int) *cache {
	c := &cache{kind: kind}
	switch kind {
	case "lra":
		c.l = lra.New(cp)
	case "cachemap":
		c.m = cachemap.New(cp)
	case "cachemap2":
		c.m2 = cachemap2.New(cp)
	case "cacheset":
		c.s = cacheset.New(cp)
	}
	return c
}

type cacheAPI interface {
	Size() int
	Empty() bool
	Clear()
}

func (c *cache) any() cacheAPI {
	switch c.kind {
	case "lra":
		return c.l
	case "cachemap":
		return c.m
	case "cachemap2":
		return c.m2
	}
	return c.s
}

func (c *cache) values() string {
	var l []interface{}
	if c.kind == "cachemap" {
		l = c.m.GetValues()
	} else {
		l = c.m2.GetValues()
	}
	var s []string
	for _, v := range l {
		s = append(s, fmt.Sprint(v))
	}
	if c.kind == "cachemap2" {
		sort.Strings(s)
	}
	return fmt.Sprint(s)
}

func (c *cache) do(o cop) string {
	switch o.op {
	case 's':
		return fmt.Sprint(c.any().Size())
	case 'e':
		return fmt.Sprint(c.any().Empty())
	case 'z':
		c.any().Clear()
		return ""
	case 'v':
		return c.values()
	}
	switch c.kind {
	case "lra":
		switch o.op {
		case 'a':
			c.l.Add(o.k, o.v)
		case 'r':
			c.l.Remove(o.k)
		case 'g':
			return fmt.Sprint(c.l.Get(o.k))
		case 'c':
			return fmt.Sprint(c.l.Contains(o.k))
		}
	case "cachemap":
		switch o.op {
		case 'a':
			c.m.Add(o.k, o.v)
		case 'r':
			c.m.Remove(o.k)
		case 'g':
			return fmt.Sprint(c.m.Get(o.k))
		case 'c':
			return fmt.Sprint(c.m.Contains(o.k))
		}
	case "cachemap2":
		switch o.op {
		case 'a':
			c.m2.Add(o.k, o.v)
		case 'r':
			c.m2.Remove(o.k)
		case 'g':
			return fmt.Sprint(c.m2.Get(o.k))
		case 'c':
			return fmt.Sprint(c.m2.Contains(o.k))
		}
	case "cacheset":
		switch o.op {
		case 'a':
			c.s.Add(o.k)
		case 'c':
			return fmt.Sprint(c.s.Contains(o.k))
		}
	}
	return ""
}

// cacheOps lists the operations of a kind.
func cacheOps(kind string, keys int) (change, query []cop) {
	for k := 0; k < keys; k++ {
		change = append(change, cop{'a', k, 10 + k})
		if kind == "lra" || kind == "cachemap" || kind == "cachemap2" {
			change = append(change, cop{'r', k, 0})
			query = append(query, cop{'g', k, 0})
		}
		query = append(query, cop{'c', k, 0})
	}
	change = append(change, cop{op: 'z'})
	query = append(query, cop{op: 's'}, cop{op: 'e'})
	if kind == "cachemap" || kind == "cachemap2" {
		query = append(query, cop{op: 'v'})
	}
	return
}

type event struct {
	o        cop
	from, to int
	res      string
}

func (e event) String() string { return fmt.Sprintf("[%v -> %s, %d-%d]", e.o, e.res, e.from, e.to) }

// linearizable searches an order of the events, consistent with their times, that explains all results; final is the state seen at the end.
func linearizable(m cmodel, ev []event, done []bool, left int, final func(m *cmodel) bool) bool {
	if left == 0 {
		return final(&m)
	}
	for i := range ev {
		if done[i] {
			continue
		}
		ok := true
		for j := range ev {
			if !done[j] && j != i && ev[j].to < ev[i].from {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		n := m
		if n.do(ev[i].o) != ev[i].res {
			continue
		}
		done[i] = true
		if linearizable(n, ev, done, left-1, final) {
			done[i] = false
			return true
		}
		done[i] = false
	}
	return false
}

func init() {
	kinds := []string{"lra", "cachemap", "cachemap2", "cacheset"}
	pkgs := []string{"scouterx/common/structure/lra", "scouterx/common/structure/cachemap", "scouterx/common/structure/cachemap2", "scouterx/common/structure/cacheset"}
	sites := append([]string{"container/list", "github.com/emirpasic/gods/maps/linkedhashmap", "github.com/emirpasic/gods/sets/linkedhashset", "github.com/emirpasic/gods/lists/doublylinkedlist", "github.com/emirpasic/gods/lists/singlylinkedlist"}, pkgs...)
	final := func(c *cache, keys int) func(m *cmodel) bool {
		_, q := cacheOps(c.kind, keys)
		var res []string
		for _, o := range q {
			res = append(res, c.do(o))
		}
		return func(m *cmodel) bool {
			for i, o := range q {
				if m.do(o) != res[i] {
					return false
				}
			}
			return true
		}
	}
	concurrent := func(kind string) Scenario {
		return Scenario{Name: kind + " concurrent", Cfg: Config{Pkgs: sites}, MaxCost: 1, Deep: 2, Split: 2, Body: func(x *X) {
			boot("", "scouterx/strace")
			ch, q := cacheOps(kind, 3)
			all := append(ch, q...)
			// a: one change, b: anything, c: anything; two threads, the second does two
			a := ch[vsched.Choose(len(ch), "a")]
			b := all[vsched.Choose(len(all), "b")]
			d := all[vsched.Choose(len(all), "c")]
			if d.op == 'a' {
				d.v += 10
			}
			m := cmodel{kind: kind, cap: 2}
			c := newCache(kind, 2)
			for k := 0; k < 2; k++ {
				m.do(cop{'a', k, k})
				c.do(cop{'a', k, k})
			}
			var ev []event
			clock := 0
			run := func(l ...cop) func() {
				return func() {
					for _, o := range l {
						clock++
						i := len(ev)
						ev = append(ev, event{o: o, from: clock, to: 1 << 30})
						r := c.do(o)
						clock++
						ev[i].res, ev[i].to = r, clock
					}
				}
			}
			vsched.Explore(true)
			par(run(a), run(b, d))
			vsched.Explore(false)
			if !linearizable(m, ev, make([]bool, len(ev)), len(ev), final(c, 3)) {
				x.Failf("%s {0 1}, capacity 2: no order explains %v", kind, ev)
			}
			x.Observe("%d", c.any().Size())
		}}
	}
	register(&Property{ID: "C25",
		Bounds:      "4 kinds of caches with capacities 1-3 (one also unlimited): all sequences of 5 (thorough: 6) additions, removals and clears over 4 keys with all queries after each; concurrently: every change against every pair of operations, 1 preemption at every memory access (thorough: 2), checked for linearizability; three threads",
		Assumptions: []string{"capacities are at least 1", "sequentially consistent memory"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "sequences", Whole: true, Cfg: Config{MaxSteps: 1 << 40}, Body: func(x *X) {
				boot("", "scouterx/strace")
				depth := 5
				if x.Deep() {
					depth = 6
				}
				for _, kind := range kinds {
					for cp := 0; cp <= 3; cp++ {
						if cp == 0 && kind != "lra" {
							continue
						}
						ch, q := cacheOps(kind, 4)
						for first := range ch {
							for second := range ch {
								if !x.Mine() {
									continue
								}
								seq := []cop{ch[first], ch[second]}
								var rec func()
								rec = func() {
									if len(seq) < depth {
										for _, o := range ch {
											seq = append(seq, o)
											rec()
											seq = seq[:len(seq)-1]
										}
										return
									}
									m := cmodel{kind: kind, cap: cp}
									c := newCache(kind, cp)
									if kind == "lra" {
										c.l.OnEvicted = func(k lra.Key, v interface{}) {
											c.out = append(c.out, cop{'a', k.(int), v.(int)})
										}
									}
									for i, o := range seq {
										if o.op == 'a' {
											o.v += 10 * i
										}
										m.do(o)
										c.do(o)
										if kind == "lra" {
											sort.Slice(c.out, func(i, j int) bool { return c.out[i].v < c.out[j].v })
											sort.Slice(m.out, func(i, j int) bool { return m.out[i].v < m.out[j].v })
											if fmt.Sprint(c.out) != fmt.Sprint(m.out) {
												x.Failf("%s of %d after %v: evicted %v, not %v", kind, cp, seq[:i+1], c.out, m.out)
											}
										}
										for _, o := range q {
											if r := c.do(o); r != m.do(o) {
												x.Failf("%s of %d after %v: %v is %s, must be %s", kind, cp, seq[:i+1], o, r, m.do(o))
											}
										}
									}
									x.Cases++
								}
								rec()
							}
						}
					}
				}
			}},
			concurrent("lra"), concurrent("cachemap"), concurrent("cachemap2"), concurrent("cacheset"),
			{Name: "three threads", Cfg: Config{Pkgs: sites}, MaxCost: 2, Deep: 3, Split: 2, Body: func(x *X) {
				kind := kinds[vsched.Choose(4, "kind")]
				boot("", "scouterx/strace")
				c := newCache(kind, 2)
				m := cmodel{kind: kind, cap: 2}
				var ev []event
				clock := 0
				run := func(o cop) func() {
					return func() {
						clock++
						i := len(ev)
						ev = append(ev, event{o: o, from: clock, to: 1 << 30})
						r := c.do(o)
						clock++
						ev[i].res, ev[i].to = r, clock
					}
				}
				last := []cop{{'a', 2, 2}, {op: 'z'}, {op: 's'}, {'c', 1, 0}}[vsched.Choose(4, "third")]
				vsched.Explore(true)
				par(run(cop{'a', 0, 0}), run(cop{'a', 1, 1}), run(last))
				vsched.Explore(false)
				if !linearizable(m, ev, make([]bool, len(ev)), len(ev), final(c, 3)) {
					x.Failf("%s, capacity 2: no order explains %v", kind, ev)
				}
				x.Observe("%s %d", kind, c.any().Size())
			}},
		}})
}
