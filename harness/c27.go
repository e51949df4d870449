package main

import (
	"context"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vruntime"
	"vshim/vsched"
)

func num(v interface{}) float64 {
	switch n := v.(type) {
	case int64:
		return float64(n)
	case float32:
		return float64(n)
	case float64:
		return n
	}
	return -12345.5
}

// life is a service of the host.
type life struct {
	ctx        context.Context
	from, till int64
}

// machine is what the Go runtime reports from a time on.
type machine struct {
	at         int64
	gc         uint32
	pause      uint64
	heap, cgo  int64
	objName    string
	unsureTill int64 // until then the previous name may be used
}

// timeline is everything that happened, for the reference.
type timeline struct {
	lives    []*life
	done     []sample // val: time of the end
	machines []machine
}

func (t *timeline) machine(at int64) machine {
	m := t.machines[0]
	for _, n := range t.machines {
		if n.at < at {
			m = n
		}
	}
	return m
}

func (t *timeline) active(at int64) (a [3]int64) {
	for _, l := range t.lives {
		if l.from < at && (l.till == 0 || l.till > at) {
			switch el := (at - l.from) / ms; {
			case el <= 3000:
				a[0]++
			case el <= 8000:
				a[1]++
			default:
				a[2]++
			}
		}
	}
	return
}

func (t *timeline) nameOK(name string, at int64) bool {
	m := t.machine(at)
	if name == "/host/"+m.objName {
		return true
	}
	if at <= m.unsureTill {
		for _, o := range t.machines {
			if o.at < m.at && name == "/host/"+o.objName {
				return true
			}
		}
	}
	return false
}

// services are those ended before a time.
func (t *timeline) services(at int64) (l []sample) {
	for _, s := range t.done {
		if s.val < float64(at) {
			l = append(l, s)
		}
	}
	return
}

// check compares all periodic packs from start to now.
func (t *timeline) check(x *X, what string, start int64) {
	c := received(x)
	now := vsched.Now()
	var realTimes, fives []*wPerf
	for _, p := range c.perfs {
		at := c.at[p]
		x.Check(t.nameOK(p.Obj, at), "%s: counters at %d ms carry the name %s", what, at/ms, p.Obj)
		switch p.Type {
		case 1:
			realTimes = append(realTimes, p)
		case 3:
			fives = append(fives, p)
		default:
			x.Failf("%s: counters of time type %d", what, p.Type)
		}
	}
	regular := func(kind string, ats []int64, period int64) {
		x.Check(int64(len(ats)) == (now-start)/(period*ms), "%s: %d %s in %d ms", what, len(ats), kind, (now-start)/ms)
		last := start
		for _, a := range ats {
			x.Check(a-last >= period*ms-100*ms && a-last <= period*ms+100*ms, "%s: %s at %d and %d ms", what, kind, last/ms, a/ms)
			last = a
		}
	}
	var ats []int64
	var active []sample
	prev := int64(-1)
	for _, p := range realTimes {
		at := c.at[p]
		ats = append(ats, at)
		sec := (vsched.Epoch.UnixNano() + at) / int64(1e9)
		tps, el, rate := serviceStats(t.services(at), 30, sec)
		n := t.active(at)
		active = append(active, sample{sec: sec, val: float64(n[0] + n[1] + n[2])})
		avg := average(active, 30, sec)
		m := t.machine(at)
		want := map[string]float64{
			counter.TPS: tps, counter.ELAPSED_TIME: float64(el), counter.ERROR_RATE: rate, counter.ACTIVE_SERVICE: avg,
			counter.GO_HEAP_USED: float64(m.heap), counter.GO_CGO_CALL: float64(m.cgo), counter.GO_GC_COUNT: 0, counter.GO_GC_PAUSE: 0,
		}
		if prev >= 0 {
			o := t.machine(prev)
			d := float64(at-prev) / 1e9
			want[counter.GO_GC_COUNT] = float64(m.gc-o.gc) / d
			want[counter.GO_GC_PAUSE] = float64(m.pause-o.pause) / 1e6 / d
		}
		prev = at
		for k, v := range want {
			x.Check(near(num(p.Data[k]), v), "%s: at %d ms %s is %v, must be %v", what, at/ms, k, p.Data[k], v)
		}
		g := num(p.Data[counter.GO_GOROUTINE])
		x.Check(g >= 1 && g < 100, "%s: %v goroutines", what, g)
		sp, ok := p.Data[counter.ACTIVE_SPEED].([]interface{})
		x.Check(ok && len(sp) == 3 && num(sp[0]) == float64(n[0]) && num(sp[1]) == float64(n[1]) && num(sp[2]) == float64(n[2]), "%s: at %d ms active services are %v, must be %v", what, at/ms, p.Data[counter.ACTIVE_SPEED], n)
		x.Check(len(p.Data) == len(want)+2, "%s: counters %v", what, sortedKeys(p.Data))
	}
	regular("real time counters", ats, 2000)
	ats = nil
	for _, p := range fives {
		at := c.at[p]
		ats = append(ats, at)
		sec := (vsched.Epoch.UnixNano() + at) / int64(1e9)
		tps, el, rate := serviceStats(t.services(at), 300, sec)
		want := map[string]float64{counter.TPS: tps, counter.ELAPSED_TIME: float64(el), counter.ERROR_RATE: rate}
		for k, v := range want {
			x.Check(near(num(p.Data[k]), v), "%s: at %d ms the 5 minute %s is %v, must be %v", what, at/ms, k, p.Data[k], v)
		}
		// the sample of the same instant may or may not be in
		var before, with []sample
		for i, r := range realTimes {
			if c.at[r] < at {
				before = append(before, active[i])
			}
			if c.at[r] <= at {
				with = append(with, active[i])
			}
		}
		a := num(p.Data[counter.ACTIVE_SERVICE])
		x.Check(near(a, average(before, 300, sec)) || near(a, average(with, 300, sec)), "%s: at %d ms the 5 minute active services are %v, must be %v", what, at/ms, a, average(with, 300, sec))
		x.Check(len(p.Data) == 4, "%s: 5 minute counters %v", what, sortedKeys(p.Data))
	}
	regular("5 minute counters", ats, 10000)
	ats = nil
	for i, o := range c.objs {
		at := c.at[o]
		if i > 0 {
			ats = append(ats, at)
		}
		x.Check(t.nameOK(o.Name, at) && o.Hash == hash(o.Name) && o.Type == "golang" && o.Version == "0.0.0" && o.Alive, "%s: object at %d ms: %+v", what, at/ms, *o)
		// the collector can resolve it
		s, ok := c.lookup("object", o.Hash)
		x.Check(ok && s == o.Name, "%s: the name of object %s was not sent", what, o.Name)
	}
	x.Check(len(c.objs) > 0 && c.at[c.objs[0]]-start < 1000*ms, "%s: no object at the start", what)
	regular("heartbeats", ats, 2000)
}

func average(l []sample, period int, now int64) float64 {
	w, _ := inWindow(l, period, now)
	if len(w) == 0 {
		return 0
	}
	sum := 0.0
	for _, s := range w {
		sum += s.val
	}
	return sum / float64(len(w))
}

func init() {
	const settings = keepAll + "stuck_service_remove_enabled=false\n"
	end := func(t *timeline, l *life, err bool) {
		if err {
			strace.MarkAsError(l.ctx, "e")
		}
		strace.EndService(l.ctx)
		l.till = vsched.Now()
		t.done = append(t.done, sample{sec: nowSec(), elapsed: int((l.till - l.from) / ms), err: err, val: float64(l.till)})
	}
	op := func(t *timeline, k int) (string, bool) {
		var open []*life
		for _, l := range t.lives {
			if l.till == 0 {
				open = append(open, l)
			}
		}
		m := t.machines[len(t.machines)-1]
		m.at = vsched.Now()
		switch k {
		case 0:
			ctx, _ := startSvc("s")
			t.lives = append(t.lives, &life{ctx: ctx, from: vsched.Now()})
			return "start", true
		case 1, 2:
			if len(open) == 0 {
				return "", false
			}
			end(t, open[0], k == 2)
			return []string{"", "end", "fail"}[k], true
		case 3:
			if len(open) < 2 {
				return "", false
			}
			end(t, open[len(open)-1], false)
			return "end newest", true
		case 4:
			m.objName += "x"
			m.unsureTill = m.at + 5100*ms
			vos.Put(confPath, settings+"obj_name="+m.objName+"\n")
			t.machines = append(t.machines, m)
			return "rename", true
		}
		m.gc += 3
		m.pause += 5000000
		m.heap += 77
		m.cgo += 2
		vruntime.Mem.NumGC, vruntime.Mem.PauseTotalNs, vruntime.Mem.HeapAlloc, vruntime.Cgo = m.gc, m.pause, uint64(m.heap), m.cgo
		t.machines = append(t.machines, m)
		return "gc", true
	}
	begin := func() (*timeline, int64) {
		boot(settings+"obj_name=n\n", "scouterx")
		start := vsched.Now()
		t := &timeline{}
		t.machines = []machine{{at: -1, heap: 1 << 20, objName: "n"}}
		vsched.Sleep(337 * ms)
		return t, start
	}
	register(&Property{ID: "C27",
		Bounds:      "all sequences of 4 (thorough: 5) operations of the host out of 6 (services starting, ending and failing, garbage collections, a new object name), each after one of 3 waits (0.4, 2, 9 s), then 40 s (thorough: also 320 s) of quiet; services at a steady rate for 700 s; every UDP write of the first 12 s failing; services ending while the counters are taken, 1 preemption at every memory access (thorough: 2)",
		Assumptions: []string{"the sender is not overloaded", "at most 2000 services are active"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "scripts", Split: 2, Body: func(x *X) {
				depth := 4
				if x.Deep() {
					depth = 5
				}
				t, start := begin()
				what := ""
				for i := 0; i < depth; i++ {
					s, ok := op(t, vsched.Choose(6, "operation"))
					if !ok {
						return
					}
					w := []int64{400, 2000, 9000}[vsched.Choose(3, "wait")]
					what += fmt.Sprintf("%s, %d ms, ", s, w)
					vsched.Sleep(w * ms)
				}
				vsched.Sleep(40000 * ms)
				t.check(x, what, start)
				x.Case()
			}},
			{Name: "5 minutes", Split: 2, Cfg: Config{MaxSteps: 1 << 40}, Body: func(x *X) {
				depth := 2
				if x.Deep() {
					depth = 3
				}
				t, start := begin()
				what := ""
				for i := 0; i < depth; i++ {
					s, ok := op(t, vsched.Choose(6, "operation"))
					if !ok {
						return
					}
					w := []int64{400, 31000, 270000}[vsched.Choose(3, "wait")]
					what += fmt.Sprintf("%s, %d ms, ", s, w)
					vsched.Sleep(w * ms)
				}
				for _, l := range t.lives {
					if l.till == 0 {
						end(t, l, false)
					}
				}
				vsched.Sleep(330000 * ms)
				t.check(x, what, start)
				x.Case()
			}},
			{Name: "steady", Cfg: Config{MaxSteps: 1 << 40}, Body: func(x *X) {
				every := []int64{700, 1100, 3300, 29000}[vsched.Choose(4, "every")]
				lasting := []int64{0, 100, 4500, 9900}[vsched.Choose(4, "lasting")]
				t, start := begin()
				for n := 0; vsched.Now() < 700000*ms; n++ {
					ctx, _ := startSvc("s")
					l := &life{ctx: ctx, from: vsched.Now()}
					t.lives = append(t.lives, l)
					bad := n%3 == 2
					vsched.Go("ends", func() {
						vsched.Sleep(lasting * ms)
						end(t, l, bad)
					})
					vsched.Sleep(every * ms)
				}
				vsched.Sleep(50 * ms)
				t.check(x, fmt.Sprintf("a service of %d ms every %d ms", lasting, every), start)
				x.Case()
			}},
			{Name: "lost packets", MaxCost: 1, Deep: 2, Body: func(x *X) {
				t, start := begin()
				vnet.UDPWriteFault = true
				vsched.Explore(true)
				ctx, _ := startSvc("s")
				vsched.Sleep(11000 * ms)
				strace.EndService(ctx)
				vsched.Sleep(1000 * ms)
				vsched.Explore(false)
				vnet.UDPWriteFault = false
				vsched.Sleep(10000 * ms)
				c := received(x)
				n := 0
				for _, p := range c.perfs {
					x.Check(t.nameOK(p.Obj, c.at[p]), "object name %s", p.Obj)
					if p.Type == 1 && c.at[p] > 12500*ms {
						n++
					}
				}
				x.Check(n >= 4, "%d real time counters in 10 s after a lost packet", n)
				x.Check(len(c.objs) >= 9, "%d heartbeats in 22 s (some lost)", len(c.objs))
				x.Observe("%d %d", len(c.perfs), len(c.objs))
				_ = start
			}},
			{Name: "concurrent", Cfg: Config{Pkgs: []string{"scouterx/task/countertask", "scouterx/counter", "scouterx/counter/gocounter", "scouterx/strace/tctxmanager"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				begin()
				ctx, _ := startSvc("a")
				vsched.Sleep(1000 * ms)
				vsched.Sleep(663 * ms)
				vsched.Explore(true)
				par(func() {
					vsched.Sleep(0)
					strace.EndService(ctx)
				}, func() {
					vsched.Sleep(5 * ms)
					c, _ := startSvc("b")
					strace.EndService(c)
				}, func() { vsched.Sleep(20 * ms) })
				vsched.Explore(false)
				vsched.Sleep(3000 * ms)
				c := received(x)
				x.Check(len(c.perfs) == 2, "%d counters", len(c.perfs))
				for _, p := range c.perfs {
					if c.at[p] < 3000*ms {
						n := num(p.Data[counter.TPS]) * 30
						x.Check(near(n, 0) || near(n, 1) || near(n, 2), "%v services/s while two services end", p.Data[counter.TPS])
					} else {
						x.Check(near(num(p.Data[counter.TPS])*30, 2), "%v services/s after two services", p.Data[counter.TPS])
					}
				}
				x.Observe("%d", len(c.perfs))
			}},
		}})
}
