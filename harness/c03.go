package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vsched"
)

type c03svc struct {
	ctx    context.Context
	id     int64
	name   string
	start  int64
	open   bool
	marked bool
	forced bool
	end    func()
}

// c03kinds are the ways a service comes to be active; each starts one named n.
var c03kinds = []struct {
	name string
	f    func(n string) *c03svc
}{
	{"service", func(n string) *c03svc {
		ctx, id := startSvc(n)
		return &c03svc{ctx: ctx, id: id, name: n, end: func() { strace.EndService(ctx) }}
	}},
	{"stream", func(n string) *c03svc {
		ctx, id := startSvc(n)
		strace.SetAsStream(ctx)
		return &c03svc{ctx: ctx, id: id, name: n, end: func() { strace.EndService(ctx) }}
	}},
	{"http", func(n string) *c03svc {
		ctx := strace.StartHttpService(bg(), httpReq("GET", n))
		return &c03svc{ctx: ctx, id: txidOf(ctx), name: n + "<GET>", end: func() { strace.EndHttpService(ctx, nil, nil) }}
	}},
	{"http stream with a failing call", func(n string) *c03svc {
		ctx := strace.StartHttpService(bg(), httpReq("POST", n))
		strace.SetAsStream(ctx)
		strace.StartApiCall(ctx, "open", "1.1.1.1")
		return &c03svc{ctx: ctx, id: txidOf(ctx), name: n + "<POST>", end: func() { strace.EndHttpService(ctx, nil, nil) }}
	}},
	{"asynchronous child", func(n string) *c03svc {
		s := &c03svc{name: n}
		root, _ := startSvc(n)
		release, ended := false, false
		strace.GoWithTrace(root, n, func(c context.Context) {
			s.ctx, s.id = c, txidOf(c)
			vsched.Block("child works", func() bool { return release })
			ended = true
		})
		vsched.Settle()
		strace.EndService(root)
		s.end = func() {
			release = true
			vsched.Settle()
			if !ended {
				panic("harness: the child did not end")
			}
		}
		return s
	}},
	{"heir", func(n string) *c03svc {
		p, _ := startSvc(n)
		ctx, _ := strace.StartNewInheritanceService(p, tctxmanager.GetTraceContext(p))
		strace.EndService(p)
		return &c03svc{ctx: ctx, id: txidOf(ctx), name: n, end: func() { strace.EndService(ctx) }}
	}},
}

const stuckMsg = "Service currently may running, not finished!"
const stuckErr = "This stuck service currently may running, not finished!"

func init() {
	conf := func(base int, remove, alert bool) string {
		return keepAll + fmt.Sprintf("stuck_service_base_time_ms=%d\nstuck_service_remove_enabled=%v\nstuck_service_alert_enabled=%v\n", base, remove, alert)
	}
	sequences := func(kinds bool) func(x *X) {
		return func(x *X) {
			k := vsched.Choose(6, "config")
			base := []int{300000, 300000, 300000, 300000, 20, 1000}[k]
			remove := []bool{true, true, false, false, true, false}[k]
			alert := []bool{true, false, true, false, true, false}[k]
			boot(conf(base, remove, alert), "scouterx/strace")
			strace.StartTracingMode()
			var l []*c03svc
			type ev struct {
				name string
				el   int64
			}
			var want []ev
			done := 0
			depth := 6
			if x.Deep() {
				depth = 7
			}
			tr := ""
			kind, extra := 0, 0
			if kinds {
				kind = 1 + vsched.Choose(len(c03kinds)-1, "kind")
				depth--
				tr = c03kinds[kind].name + ": "
			}
			for i := 0; i < depth; i++ {
				op := vsched.Choose(8, "op")
				if len(l) == 0 && op != 0 {
					return
				}
				switch op {
				case 0:
					n := fmt.Sprintf("/s%d", len(l))
					s := c03kinds[kind].f(n)
					s.start, s.open = vsched.Now(), true
					if kind >= 4 { // its predecessor or parent ended
						extra++
					}
					l = append(l, s)
					tr += "start "
				case 1:
					advance(int64(base) * ms)
					tr += "base "
				case 2:
					advance(1 * ms)
					tr += "1ms "
				case 3, 7:
					vsched.Settle()
					tctxmanager.GetActiveCount()
					vsched.Settle()
					for _, s := range l {
						el := (vsched.Now() - s.start) / ms
						if s.open && el > int64(base) {
							want = append(want, ev{s.name, el})
							if remove {
								s.open, s.forced = false, true
								done++
							}
						}
					}
					tr += "sweep "
					if op == 7 {
						// a second service starting right after a sweep
						advance(int64(base) / 2 * ms)
						tr += "half "
					}
				case 4:
					s := l[0]
					s.end()
					if s.open {
						s.open = false
						done++
					}
					tr += "end-first "
				case 5:
					s := l[len(l)-1]
					strace.MarkAsError(s.ctx, "own")
					if s.open {
						s.marked = true
					}
					tr += "error-last "
				case 6:
					s := l[len(l)-1]
					s.end()
					if s.open {
						s.open = false
						done++
					}
					tr += "end-last "
				}
			}
			a := activeList(x)
			drain()
			c := received(x)
			x.Check(len(c.alerts) == len(want), "%s: %d alerts for %d stuck services", tr, len(c.alerts), len(want))
			used := make([]bool, len(want))
			lv := 1
			if alert {
				lv = 2
			}
			for _, g := range c.alerts { // those of one sweep come in any order
				found := false
				for i, w := range want {
					if !used[i] && g.Title == "STUCK_SERVICE" && g.Level == lv && strings.Contains(g.Msg, w.name) && strings.Contains(g.Msg, fmt.Sprint(w.el)) && !strings.Contains(g.Msg, "%") {
						used[i], found = true, true
						break
					}
				}
				x.Check(found, "%s: alert %+v for none of the services stuck (name, ms) %v (level %d)", tr, *g, want, lv)
				x.Check(g.ObjHash == hash(objHash0) && g.ObjType == "golang", "%s: alert %+v names another object", tr, *g)
			}
			x.Check(len(c.xlogs) == done+extra, "%s: %d transaction records, %d completions", tr, len(c.xlogs), done+extra)
			for _, s := range l {
				x.Check((hasActive(a, s.id) == 1) == s.open, "%s: service %s listed as active: %d", tr, s.name, hasActive(a, s.id))
				if s.open {
					x.Check(len(c.xlogsOf(s.id)) == 0, "%s: open service %s has a record", tr, s.name)
					continue
				}
				g := completedOnce(x, c, s.id, s.name)
				profileExact(x, c, s.id, g)
				e := int32(0)
				if s.forced {
					e = hash(stuckErr)
				}
				if s.marked {
					e = hash("own")
				}
				x.Check(g.Error == e, "%s: service %s recorded with error %x instead of %x", tr, s.name, uint32(g.Error), uint32(e))
				n := 0
				for _, st := range c.stepsOf(s.id) {
					if st.Type == 17 && st.Hash == hash(stuckMsg) && st.Level == 3 {
						n++
					}
				}
				x.Check((n == 1) == s.forced && n < 2, "%s: service %s has %d stuck notes", tr, s.name, n)
			}
			x.Case()
			x.Sample("%s base=%d remove=%v alert=%v", tr, base, remove, alert)
		}
	}
	register(&Property{ID: "C03",
		Bounds:      "all sequences of 6 (thorough: 7) operations over 8 operations, for 6 settings of threshold, removal and alerting, and one shorter with services of 5 further kinds (streams, HTTP, children, heirs); the running agent over 7 minutes; a sweep interleaved with completions, error marks and a second sweep",
		Assumptions: []string{"no more than 2000 services active at a time", "UDP writes succeed"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "sequences", Body: sequences(false)},
			{Name: "kinds", Body: sequences(true)},
			{Name: "running-agent", Body: func(x *X) {
				k := vsched.Choose(4, "config")
				remove, alert := k&1 != 0, k&2 != 0
				boot(conf(60000, remove, alert), "scouterx")
				ctx, id := startSvc("/stuck")
				vsched.Sleep(50000 * ms)
				young, yid := startSvc("/young")
				vsched.Sleep(11000 * ms) // 61 s
				vsched.Sleep(4000 * ms)  // at least two more sweeps
				a := activeList(x)
				c := received(x)
				x.Check((hasActive(a, id) == 1) == !remove, "stuck service listed: %d", hasActive(a, id))
				x.Check(hasActive(a, yid) == 1, "a young service was removed")
				if remove {
					x.Check(len(c.alerts) == 1, "%d alerts for one removed service", len(c.alerts))
				} else {
					x.Check(len(c.alerts) >= 2, "%d alerts although the service stayed stuck over several sweeps", len(c.alerts))
				}
				strace.EndService(ctx)
				strace.EndService(young)
				vsched.Sleep(3000 * ms)
				c = received(x)
				completedOnce(x, c, id, "/stuck")
				g := completedOnce(x, c, yid, "/young")
				x.Check(g.Error == 0, "young service is marked as failed")
				x.Case()
			}},
			{Name: "sweep-vs-mark", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(conf(1000, true, true), "scouterx/strace")
				strace.StartTracingMode()
				vsched.Settle()
				ctx, id := startSvc("/stuck")
				advance(900 * ms)
				young, yid := startSvc("/young")
				advance(101 * ms)
				vsched.Explore(true)
				par(func() { tctxmanager.GetActiveCount() }, func() { strace.MarkAsError(ctx, "own"); strace.AddMessageStep(young, "m") }, func() { tctxmanager.GetActiveCount() })
				vsched.Explore(false)
				vsched.Settle()
				a := activeList(x)
				x.Check(len(a) == 1 && hasActive(a, yid) == 1, "after the sweeps the active services are %v", a)
				strace.EndService(young)
				drain()
				c := received(x)
				g := completedOnce(x, c, id, "/stuck")
				x.Check(g.Error == hash(stuckErr) || g.Error == hash("own"), "stuck service recorded with error %x", g.Error)
				g = completedOnce(x, c, yid, "/young")
				profileExact(x, c, yid, g)
				x.Check(g.Error == 0, "young service is marked as failed")
				x.Check(len(c.stepsOf(yid)) == 2, "young service has %d steps", len(c.stepsOf(yid)))
				x.Check(len(c.alerts) >= 1 && len(c.alerts) <= 2, "%d alerts", len(c.alerts))
				x.Observe("%d %x", len(c.alerts), g.Error)
			}},
		}})
}
