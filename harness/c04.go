package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vsched"
)

type open struct {
	m      *netdata.MethodStep
	a      *netdata.ApiCallStep
	index  int32
	parent int32
	start  int64
	want   wStep
}

// prog drives one service and predicts the profile it must produce.
type prog struct {
	ctx   context.Context
	id    int64
	t0    int64
	next  int32
	stack []*open
	want  []wStep
	calls int32
	ctime int32
	err   int32
	trace string
}

func newProg(ctx context.Context) *prog {
	p := &prog{ctx: ctx, id: txidOf(ctx), t0: vsched.Now(), next: 1}
	p.want = []wStep{{Type: 3, Index: 0}}
	return p
}

func (p *prog) now() int32 { return int32((vsched.Now() - p.t0) / ms) }

func (p *prog) parent() int32 {
	if n := len(p.stack); n > 0 {
		return p.stack[n-1].index
	}
	return 0
}

func (p *prog) leaf(s wStep) {
	s.Index, s.Parent, s.Start = p.next, p.parent(), p.now()
	p.next++
	p.want = append(p.want, s)
}

func (p *prog) push(o *open) {
	o.index, o.parent, o.start = p.next, p.parent(), vsched.Now()
	o.want.Index, o.want.Parent, o.want.Start = o.index, o.parent, p.now()
	p.next++
	p.stack = append(p.stack, o)
}

// end closes the k-th open step counted from the innermost.
func (p *prog) end(k int, err error) {
	i := len(p.stack) - 1 - k
	o := p.stack[i]
	p.stack = p.stack[:i]
	o.want.Elapsed = int32((vsched.Now()-p.t0)/ms) - o.want.Start
	if o.m != nil {
		strace.EndMethod(p.ctx, o.m)
	} else {
		strace.EndApiCall(p.ctx, o.a, err)
		p.calls++
		p.ctime += o.want.Elapsed
		if err != nil {
			o.want.Err = hash(err.Error())
			if p.err == 0 {
				p.err = o.want.Err
			}
		}
	}
	p.want = append(p.want, o.want)
}

const nProgOps = 9

func (p *prog) op(k int) {
	n := len(p.want) + len(p.stack)
	switch k {
	case 0:
		t := fmt.Sprintf("m%d", n)
		strace.AddMessageStep(p.ctx, t)
		p.leaf(wStep{Type: 3, Text: t})
		p.trace += "msg "
	case 1:
		strace.AddHashedMessageStep(p.ctx, "hm", int32(n), 7)
		p.leaf(wStep{Type: 9, Hash: hash("hm"), Value: int32(n), Elapsed: 7})
		p.trace += "hashed "
	case 2:
		strace.AddPMessageStep(p.ctx, netdata.PMSG_WARN, "pm", int32(n), "x", "")
		p.leaf(wStep{Type: 17, Hash: hash("pm"), Elapsed: int32(n), Level: 2, Text: "x\x03\x03"})
		p.trace += "pmsg "
	case 3:
		name := fmt.Sprintf("f%d", n)
		p.push(&open{m: strace.StartCustomMethod(p.ctx, name), want: wStep{Type: 1, Hash: hash(name)}})
		p.trace += "method "
	case 4:
		name := fmt.Sprintf("c%d", n)
		a := strace.StartApiCall(p.ctx, name, "h:1")
		o := &open{a: a, want: wStep{Type: 6, Hash: hash(name), Opt: 1, Addr: "h:1"}}
		if a != nil {
			o.want.Txid = a.Txid
		}
		p.push(o)
		p.trace += "api "
	case 5:
		if len(p.stack) > 0 {
			p.end(0, nil)
			p.trace += "end "
		}
	case 6:
		if len(p.stack) > 1 {
			p.end(1, errors.New("e1"))
			p.trace += "end-outer "
		}
	case 7:
		vsched.Advance(dur(3 * ms))
		p.trace += "3ms "
	case 8:
		name := fmt.Sprintf("g%d", n)
		p.leaf(wStep{Type: 3, Text: "param: 1"})
		p.leaf(wStep{Type: 3, Text: "param: [a]"})
		p.push(&open{m: strace.StartCustomMethodWithParam(p.ctx, name, 1, nil, []string{"a"}), want: wStep{Type: 1, Hash: hash(name)}})
		p.trace += "method+param "
	}
}

func sameStep(a, b wStep) bool {
	return a.Type == b.Type && a.Index == b.Index && a.Parent == b.Parent && a.Start == b.Start && a.Hash == b.Hash && a.Elapsed == b.Elapsed &&
		a.Value == b.Value && a.Level == b.Level && a.Err == b.Err && a.Txid == b.Txid && a.Opt == b.Opt && a.Addr == b.Addr && a.Cpu == 0 && a.Cpu0 == 0 &&
		(a.Text == b.Text || a.Index == 0 && strings.HasPrefix(a.Text, "goroutine:"))
}

// check compares what arrived with the prediction, in order of completion.
func (p *prog) check(x *X, c *capture, keep, bulk int, name string) {
	g := completedOnce(x, c, p.id, name)
	var got []wStep
	for _, q := range c.profilesOf(p.id) {
		lim := keep
		if bulk > 0 && bulk < lim {
			lim = bulk
		}
		x.Check(len(q.Steps) > 0 && len(q.Steps) <= lim, "%s: a profile pack carries %d steps, limit %d", p.trace, len(q.Steps), lim)
		x.Check(q.ObjHash == hash(objHash0) && q.Service == hash(name), "%s: profile pack names object %x service %x", p.trace, q.ObjHash, q.Service)
		got = append(got, q.Steps...)
	}
	x.Check(len(got) == len(p.want), "%s: %d steps arrived, expected %d\n got %s\nwant %s", p.trace, len(got), len(p.want), describeSteps(got), describeSteps(p.want))
	for i := range got {
		x.Check(sameStep(got[i], p.want[i]), "%s: step %d is %+v, expected %+v", p.trace, i, got[i], p.want[i])
	}
	x.Check(int(g.ProfileCount) == len(got) && int(g.ProfileSize) == c.size(p.id), "%s: record says %d steps %d bytes, %d steps %d bytes arrived", p.trace, g.ProfileCount, g.ProfileSize, len(got), c.size(p.id))
	x.Check(g.ApicallCount == p.calls && g.ApicallTime == p.ctime, "%s: record says %d calls in %d ms, %d in %d happened", p.trace, g.ApicallCount, g.ApicallTime, p.calls, p.ctime)
	x.Check(g.Error == p.err, "%s: record says error %x, expected %x", p.trace, uint32(g.Error), uint32(p.err))
	for _, s := range got {
		kind := map[int]string{1: "method", 6: "apicall", 9: "hmsg", 17: "hmsg"}[s.Type]
		if kind != "" {
			_, ok := c.lookup(kind, s.Hash)
			x.Check(ok, "%s: the text of step %s was never sent", p.trace, stepText(s))
		}
	}
}

type kb struct{ keep, bulk int }

func init() {
	sizes := []kb{{2048, 1024}, {1, 1024}, {2, 1}, {3, 2}, {4, 0}, {0, 0}, {-1, -1}, {5, 5}, {7, 3}}
	eff := func(k kb) kb {
		if k.keep < 1 {
			k.keep = 1
		}
		return k
	}
	confOf := func(k kb) string {
		return keepAll + fmt.Sprintf("profile_step_max_keep_in_memory_count=%d\nprofile_step_max_count=%d\n", k.keep, k.bulk)
	}
	register(&Property{ID: "C04",
		Bounds:      "all step programs of 6 (thorough: 7) operations over 9 operations for 2 (thorough: 9) buffer settings, all programs of 4 operations for 9 settings; up to 10000 steps with 12 buffer settings; message lengths around every length-encoding boundary",
		Assumptions: []string{"steps are ended innermost first or by ending an enclosing step", "the service is kept by sampling"},
		QuickSec:    100, DeepSec: 800,
		Scenarios: []Scenario{
			{Name: "programs", Body: func(x *X) {
				depth := 5
				k := sizes[0]
				if x.Deep() {
					k = sizes[[]int{0, 2, 3}[vsched.Choose(3, "sizes")]]
					depth = 6
				} else {
					k = sizes[[]int{0, 3}[vsched.Choose(2, "sizes")]]
				}
				boot(confOf(k), "scouterx/strace")
				ctx, _ := startSvc("/p")
				p := newProg(ctx)
				for i := 0; i < depth; i++ {
					p.op(vsched.Choose(nProgOps, "op"))
				}
				strace.EndService(ctx)
				strace.AddMessageStep(ctx, "too late")
				drain()
				k = eff(k)
				p.check(x, received(x), k.keep, k.bulk, "/p")
				x.Case()
				x.Sample("%s keep=%d bulk=%d", p.trace, k.keep, k.bulk)
			}},
			{Name: "buffers", Body: func(x *X) {
				k := sizes[vsched.Choose(len(sizes), "sizes")]
				boot(confOf(k), "scouterx/strace")
				ctx, _ := startSvc("/p")
				p := newProg(ctx)
				for i := 0; i < 4; i++ {
					p.op(vsched.Choose(nProgOps, "op"))
				}
				strace.EndService(ctx)
				drain()
				k = eff(k)
				p.check(x, received(x), k.keep, k.bulk, "/p")
				x.Case()
			}},
			{Name: "long-profiles", Body: func(x *X) {
				sz := append([]kb{{2048, 1000}, {100, 7}, {1024, 1024}, {1023, 1024}}, sizes[:7]...)
				k := sz[vsched.Choose(len(sz), "sizes")]
				counts := []int{1, 2, 3, 6, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 5000}
				n := counts[vsched.Choose(len(counts), "count")]
				boot(confOf(k), "scouterx/strace")
				ctx, _ := startSvc("/p")
				p := newProg(ctx)
				for i := 0; i < n; i++ {
					switch i % 7 {
					case 3:
						p.op(3)
					case 5:
						p.op(5)
					default:
						p.op(0)
					}
				}
				for len(p.stack) > 0 {
					p.op(5)
				}
				p.trace = fmt.Sprintf("%d operations", n)
				strace.EndService(ctx)
				drain()
				k = eff(k)
				p.check(x, received(x), k.keep, k.bulk, "/p")
				x.Case()
			}},
			{Name: "texts", Body: func(x *X) {
				lens := []int{0, 1, 252, 253, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, 70000, 99999, 100000, 100001}
				n := lens[vsched.Choose(len(lens), "length")]
				uni := vsched.Choose(3, "alphabet")
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/p")
				t := strings.Repeat("a", n)
				if uni == 1 {
					t = strings.Repeat("\xff", n)
				} else if uni == 2 {
					t = strings.Repeat("한\x00", n/4+1)[:n]
				}
				strace.AddMessageStep(ctx, t)
				strace.AddMessageStep(ctx, "end")
				strace.EndService(ctx)
				drain()
				c := received(x)
				profileExact(x, c, id, completedOnce(x, c, id, "/p"))
				want := t
				if n > 100000 {
					want = "huge string omitted..."
				}
				st := c.stepsOf(id)
				x.Check(len(st) == 3 && st[1].Text == want && st[2].Text == "end", "a message of %d bytes arrived with %d bytes", n, len(st[1].Text))
				x.Case()
			}},
		}})
	register(&Property{ID: "C05",
		Bounds:      "2 and 3 threads adding, pushing and popping steps on one service, with buffers of 1 to 2048 steps, alone and against its completion; every shared access in the collector a switch point",
		Assumptions: []string{"sequentially consistent memory"},
		QuickSec:    100, DeepSec: 800,
		Scenarios: []Scenario{
			concSteps("adders", 2, 3, false, []kb{{2048, 1024}, {2, 1}}, 2),
			concSteps("adders-vs-end", 2, 3, true, []kb{{2, 2}}, 2),
			concSteps("adders-vs-end-large", 2, 3, true, []kb{{2048, 1024}}, 2),
			concSteps("three", 1, 2, true, []kb{{1, 1}, {3, 2}, {2048, 1024}}, 3),
		}})
}

func concSteps(name string, cost, deep int, end bool, ks []kb, threads int) Scenario {
	return Scenario{Name: name, Cfg: Config{Pkgs: []string{"scouterx/strace", "scouterx/netio"}}, MaxCost: cost, Deep: deep, Body: func(x *X) {
		k := ks[vsched.Choose(len(ks), "sizes")]
		boot(keepAll+fmt.Sprintf("profile_step_max_keep_in_memory_count=%d\nprofile_step_max_count=%d\n", k.keep, k.bulk), "scouterx/strace")
		ctx, id := startSvc("/p")
		added := map[string]bool{}
		tried := map[string]bool{}
		closing := false
		note := func(s string, f func()) {
			tried[s] = true
			before := !closing
			f()
			if before && !closing {
				added[s] = true
			}
		}
		one := func(i int) func() {
			return func() {
				switch i {
				case 0:
					note("m0", func() { strace.AddMessageStep(ctx, "m0") })
					note("m1", func() { strace.AddMessageStep(ctx, "m1") })
				case 1:
					var m *netdata.MethodStep
					note("f", func() { m = strace.StartCustomMethod(ctx, "f"); strace.EndMethod(ctx, m) })
					note("m2", func() { strace.AddMessageStep(ctx, "m2") })
				case 2:
					note("h", func() { strace.AddHashedMessageStep(ctx, "h", 1, 2) })
					note("c", func() { strace.EndApiCall(ctx, strace.StartApiCall(ctx, "c", ""), nil) })
				}
			}
		}
		var fs []func()
		for i := 0; i < threads; i++ {
			fs = append(fs, one(i))
		}
		if end {
			fs = append(fs, func() { closing = true; strace.EndService(ctx) })
		}
		vsched.Explore(true)
		par(fs...)
		vsched.Explore(false)
		strace.EndService(ctx)
		drain()
		c := received(x)
		g := completedOnce(x, c, id, "/p")
		profileExact(x, c, id, g)
		st := c.stepsOf(id)
		seen := map[string]int{}
		idx := map[int32]wStep{}
		for _, s := range st {
			idx[s.Index] = s
		}
		for _, s := range st[1:] {
			n := s.Text
			switch s.Type {
			case 1:
				n = "f"
				x.Check(s.Hash == hash("f"), "method step with hash %x", s.Hash)
			case 9:
				n = "h"
				x.Check(s.Hash == hash("h") && s.Value == 1 && s.Elapsed == 2, "hashed step %+v", s)
			case 6:
				n = "c"
				x.Check(s.Hash == hash("c"), "call step %+v", s)
			}
			seen[n]++
			x.Check(tried[n], "a step nobody added arrived: %+v", s)
			x.Check(s.Parent >= 0 && s.Parent < s.Index, "step %d has parent %d", s.Index, s.Parent)
			if p, ok := idx[s.Parent]; ok && s.Parent != 0 {
				x.Check(p.Type == 1 || p.Type == 6, "step %d is below step %d, which encloses nothing", s.Index, s.Parent)
			}
		}
		for n := range tried {
			x.Check(seen[n] <= 1, "step %s arrived %d times", n, seen[n])
			x.Check(!added[n] || seen[n] == 1, "step %s, added before completion, is missing", n)
		}
		for _, q := range c.profilesOf(id) {
			x.Check(len(q.Steps) <= k.bulk && len(q.Steps) <= k.keep, "profile pack with %d steps", len(q.Steps))
		}
		x.Observe("%s", describeSteps(st))
	}}
}
