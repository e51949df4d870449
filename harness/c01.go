package main

import (
	"context"
	"fmt"
	"net/http"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vsched"
)

// ownContext is an application's implementation.
type ownContext struct{ context.Context }

func enders(ctx context.Context, kind int) func() {
	switch kind {
	case 1:
		return func() { strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 200}) }
	case 2:
		return func() { strace.EndHttpService(ctx, httpReq("GET", "/x"), nil) }
	case 3:
		return func() { tctxmanager.GetActiveCount() }
	}
	return func() { strace.EndService(ctx) }
}

// onceScenario: one service, completed by several threads at once.
func onceScenario(name string, cost, deep int, kinds ...int) Scenario {
	return Scenario{Name: name, Cfg: Config{Pkgs: svcPkgs}, MaxCost: cost, Recent: 1, Deep: deep, Body: func(x *X) {
		boot(keepAll, "scouterx/strace")
		strace.StartTracingMode()
		vsched.Settle()
		ctx, id := startSvc("/svc")
		other, oid := startSvc("/other")
		advance(1000 * ms)
		for _, k := range kinds {
			if k == 3 {
				advance(300001 * ms)
				break
			}
		}
		strace.AddMessageStep(ctx, "m")
		var fs []func()
		sweep := false
		for _, k := range kinds {
			fs = append(fs, enders(ctx, k))
			sweep = sweep || k == 3
		}
		vsched.Explore(true)
		par(fs...)
		vsched.Explore(false)
		if hasActive(activeList(x), id) != 0 {
			x.Failf("completed service is still listed as active")
		}
		n := metered()
		want := 1
		if sweep {
			want = 2
		}
		x.Check(n == want, "%d completions counted for %d completed services", n, want)
		strace.EndService(other)
		strace.EndService(ctx)
		x.Check(metered() == 2, "%d completions counted for 2 completed services", metered())
		drain()
		c := received(x)
		l := completedOnce(x, c, id, "/svc")
		profileExact(x, c, id, l)
		profileExact(x, c, oid, completedOnce(x, c, oid, "/other"))
		x.Check(len(c.xlogs) == 2, "%d transaction records for 2 services", len(c.xlogs))
		x.Observe("%d %d %s", l.Elapsed, l.Error, describeSteps(c.stepsOf(id)))
	}}
}

type c01svc struct {
	ctx  context.Context
	id   int64
	name string
	open bool
}

func init() {
	register(&Property{ID: "C01",
		Bounds:      "interleavings (every shared memory access and synchronisation a switch point) of 2 and 3 completing threads, completion against the stuck sweep, services on parallel threads and asynchronous children up to the stated number of deviations; all operation sequences of length 5 (thorough: 6) over 10 operations; all sequences of 3 operations (thorough: 4) that rename, mark, delay or change a service, 3 ways to end it, and 1 (thorough: 2) operation after its end; 7 kinds of context x 4 ways to start x cancelled or not x 5 uses x 3 ways to end",
		Assumptions: []string{"the send queue never overflows (xlogs are not queued) and the UDP socket accepts writes", "sequentially consistent memory"},
		QuickSec:    100, DeepSec: 700,
		Scenarios: []Scenario{
			onceScenario("end-end", 2, 3, 0, 0),
			onceScenario("http-end", 1, 2, 1, 0),
			onceScenario("http-nil-end", 1, 2, 2, 1),
			onceScenario("end-sweep", 2, 3, 0, 3),
			onceScenario("sweep-sweep", 1, 3, 3, 3),
			onceScenario("end-end-end", 1, 2, 0, 0, 0),
			onceScenario("end-end-sweep", 1, 2, 0, 1, 3),
			{Name: "parallel-services", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				var ids [3]int64
				names := []string{"/a", "/b", "/a"}
				one := func(i int) func() {
					return func() {
						ctx, id := startSvc(names[i])
						ids[i] = id
						strace.AddMessageStep(ctx, "m")
						strace.EndService(ctx)
					}
				}
				vsched.Explore(true)
				par(one(0), one(1), one(2))
				x.Check(metered() == 3, "%d completions counted for 3 services", metered())
				x.Check(len(activeList(x)) == 0, "completed services are still active")
				drain()
				c := received(x)
				x.Check(len(c.xlogs) == 3, "%d transaction records for 3 services", len(c.xlogs))
				for i, id := range ids {
					profileExact(x, c, id, completedOnce(x, c, id, names[i]))
				}
			}},
			{Name: "async-children", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/p")
				var k [2]int64
				vsched.Explore(true)
				strace.GoWithTrace(ctx, "/k0", func(c context.Context) { k[0] = txidOf(c) })
				strace.GoWithTrace(ctx, "/k1", func(c context.Context) { k[1] = txidOf(c); strace.EndService(c) })
				strace.EndService(ctx)
				vsched.Settle()
				x.Check(metered() == 3, "%d completions counted for 3 services", metered())
				x.Check(len(activeList(x)) == 0, "completed services are still active")
				drain()
				c := received(x)
				x.Check(len(c.xlogs) == 3, "%d transaction records for 3 services", len(c.xlogs))
				profileExact(x, c, id, completedOnce(x, c, id, "/p"))
				profileExact(x, c, k[0], completedOnce(x, c, k[0], "/k0"))
				profileExact(x, c, k[1], completedOnce(x, c, k[1], "/k1"))
			}},
			{Name: "sequences", MaxCost: 0, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				strace.StartTracingMode()
				var l []*c01svc
				done, counted := 0, 0
				depth := 5
				if x.Deep() {
					depth = 6
				}
				add := func(ctx context.Context, name string) {
					l = append(l, &c01svc{ctx, txidOf(ctx), name, true})
				}
				closed := func(s *c01svc) {
					if s.open {
						s.open = false
						done++
						counted++
					}
				}
				trace := ""
				for i := 0; i < depth; i++ {
					op := vsched.Choose(10, "op")
					var last, first *c01svc
					if len(l) > 0 {
						first, last = l[0], l[len(l)-1]
					}
					if last == nil && op > 2 {
						// the first operation creates a service
						return
					}
					switch op {
					case 0:
						add(strace.StartService(bg(), "/s", "1.1.1.1"), "/s")
						trace += "start "
					case 1:
						add(strace.StartHttpService(bg(), httpReq("GET", "/h")), "/h<GET>")
						trace += "http "
					case 2:
						strace.EndService(bg())
						strace.EndHttpService(bg(), nil, nil)
						trace += "end-untraced "
					case 3:
						strace.EndService(last.ctx)
						closed(last)
						trace += "end-last "
					case 4:
						strace.EndService(first.ctx)
						closed(first)
						trace += "end-first "
					case 5:
						strace.EndHttpService(last.ctx, nil, &http.Response{StatusCode: 500})
						closed(last)
						trace += "endhttp-last "
					case 6:
						if strace.StartService(last.ctx, "/again", "2.2.2.2") != last.ctx || strace.StartHttpService(last.ctx, httpReq("GET", "/g")) != last.ctx {
							x.Failf("starting a service on a traced context did not return that context (%s)", trace)
						}
						trace += "restart "
					case 7:
						var cc context.Context
						strace.GoWithTrace(last.ctx, "/k", func(c context.Context) { cc = c })
						vsched.Settle()
						add(cc, "/k")
						closed(l[len(l)-1])
						trace += "go "
					case 8:
						x.Check(metered() == counted, "%s: %d completions counted, %d happened", trace, metered(), counted)
						advance(301000 * ms)
						counted = 0
						tctxmanager.GetActiveCount()
						for _, s := range l {
							closed(s)
						}
						trace += "sweep "
					case 9:
						strace.MarkAsError(last.ctx, "bad")
						trace += "error "
					}
				}
				x.Check(metered() == counted, "%s: %d completions counted, %d happened", trace, metered(), counted)
				a := activeList(x)
				drain()
				c := received(x)
				x.Check(len(c.xlogs) == done, "%s: %d transaction records, %d completions", trace, len(c.xlogs), done)
				for _, s := range l {
					n := len(c.xlogsOf(s.id))
					if s.open {
						x.Check(n == 0, "%s: record for a service that has not completed", trace)
						x.Check(hasActive(a, s.id) == 1, "%s: open service is listed %d times", trace, hasActive(a, s.id))
					} else {
						profileExact(x, c, s.id, completedOnce(x, c, s.id, s.name))
						x.Check(hasActive(a, s.id) == 0, "%s: completed service is still active", trace)
					}
				}
				x.Sample("%s", trace)
				x.Case()
			}},
			{Name: "contexts", Body: func(x *X) {
				// services traced in contexts of every kind, completed through contexts derived from theirs
				boot(keepAll, "scouterx/strace")
				strace.StartTracingMode()
				type key int
				cancel := func() {}
				parent := context.WithValue(context.Background(), key(1), "v")
				switch vsched.Choose(7, "context") {
				case 1:
					parent = context.WithValue(context.TODO(), key(1), "v")
				case 2:
					parent, cancel = context.WithCancel(parent)
				case 3:
					parent, cancel = context.WithDeadline(parent, time.Now().Add(1000*time.Hour))
				case 4:
					parent, cancel = context.WithCancel(parent)
					cancel()
				case 5:
					parent = context.WithValue(parent, "Txid", int64(5))
					parent = context.WithValue(parent, "txid", "not an id")
				case 6:
					parent, cancel = context.WithCancel(ownContext{parent})
				}
				ctx, name := parent, "/c"
				switch vsched.Choose(4, "start") {
				case 0:
					ctx = strace.StartService(parent, "/c", "1.2.3.4")
				case 1:
					r := httpReq("GET", "/c")
					ctx, name = strace.StartHttpService(parent, r.WithContext(parent)), "/c<GET>"
				case 2:
					r := httpReq("GET", "/c").WithContext(parent)
					ctx, name = strace.StartHttpService(r.Context(), r), "/c<GET>"
				case 3:
					p, _ := startSvc("/c")
					ctx, _ = strace.StartNewInheritanceService(parent, tctxmanager.GetTraceContext(p))
					strace.EndService(p)
				}
				id := txidOf(ctx)
				x.Check(id != 0, "the service is not traced")
				x.Check(ctx.Value(key(1)) == "v", "the service's context lost the application's value")
				d0, ok0 := parent.Deadline()
				d1, ok1 := ctx.Deadline()
				x.Check(d0 == d1 && ok0 == ok1 && ctx.Err() == parent.Err(), "the service's context ends at %v %v (%v), the application's at %v %v (%v)", d1, ok1, ctx.Err(), d0, ok0, parent.Err())
				x.Check(txidOf(parent) == 0, "the application's own context became traced")
				for _, a := range activeList(x) {
					if a.Txid == xid32(id) {
						x.Check(a.Goid == goid(), "service of goroutine %d is listed as one of %d", goid(), a.Goid)
					}
				}
				x.Check(hasActive(activeList(x), id) == 1, "the service is not listed as active")
				cancelled := vsched.Choose(2, "cancelled meanwhile") == 1
				if cancelled {
					cancel()
					x.Check(ctx.Err() == parent.Err(), "the service's context is %v after the cancellation of %v", ctx.Err(), parent.Err())
				}
				use := ctx
				switch vsched.Choose(5, "used through") {
				case 1:
					use = context.WithValue(ctx, key(2), "w")
				case 2:
					var c func()
					use, c = context.WithCancel(ctx)
					c()
				case 3:
					use = ownContext{ctx}
				case 4:
					use = httpReq("GET", "/").WithContext(ctx).Context()
				}
				strace.AddMessageStep(use, "m")
				advance(7 * ms)
				switch vsched.Choose(3, "end") {
				case 0:
					strace.EndService(use)
				case 1:
					strace.EndHttpService(use, nil, nil)
				case 2:
					strace.EndHttpService(use, httpReq("GET", "/c"), &http.Response{StatusCode: 200})
				}
				strace.EndService(ctx)
				x.Check(hasActive(activeList(x), id) == 0, "the completed service is still listed as active")
				drain()
				c := received(x)
				l := completedOnce(x, c, id, name)
				profileExact(x, c, id, l)
				x.Check(l.Elapsed == 7, "recorded with %d ms", l.Elapsed)
				st := c.stepsOf(id)
				x.Check(st[0].Text == fmt.Sprintf("goroutine:%d", goid()) && st[len(st)-1].Text == "m", "service of goroutine %d has steps %s", goid(), describeSteps(st))
				cancel()
				x.Case()
			}},
			{Name: "final-state", MaxCost: 0, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				strace.StartTracingMode()
				var ctx context.Context
				name := "/f"
				if vsched.Choose(2, "http") == 1 {
					ctx, name = strace.StartHttpService(bg(), httpReq("GET", "/f")), "/f<GET>"
				} else {
					ctx, _ = startSvc(name)
				}
				t := tctxmanager.GetTraceContext(ctx)
				id := txidOf(ctx)
				errText, elapsed, status := "", int32(0), int32(0)
				n, n2 := 3, 1
				if x.Deep() {
					n, n2 = 4, 2
				}
				op := func(i int, open bool) {
					e, r := string(rune('a'+i))+"-bad", "/r"+string(rune('0'+i))
					switch vsched.Choose(8, "op") {
					case 0:
						strace.SetServiceNameForcibly(ctx, r)
						if open {
							name = r
						}
					case 1:
						t.ServiceName = r
						if open {
							name = r
						}
					case 2:
						strace.MarkAsError(ctx, e)
						if open && errText == "" {
							errText = e
						}
					case 3:
						strace.MarkAsErrorForcibly(ctx, e)
						if open {
							errText = e
						}
					case 4:
						advance(1700 * ms)
						if open {
							elapsed += 1700
						}
					case 5:
						advance(999999)
						advance(1)
						if open {
							elapsed++
						}
					case 6:
						t.Status = int32(400 + i)
						if open {
							status = t.Status
						}
					case 7:
						strace.EndApiCall(ctx, strace.StartApiCall(ctx, "call", "1.1.1.1"), nil)
					}
				}
				for i := 0; i < n; i++ {
					op(i, true)
				}
				switch vsched.Choose(3, "end") {
				case 0:
					strace.EndService(ctx)
				case 1:
					strace.EndHttpService(ctx, nil, nil)
				case 2:
					strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 599})
					status = 599
				}
				for i := 0; i < n2; i++ {
					op(n+i, false)
				}
				strace.EndService(ctx)
				strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 600})
				tctxmanager.GetActiveCount()
				drain()
				c := received(x)
				l := completedOnce(x, c, id, name)
				x.Check(len(c.xlogs) == 1, "%d transaction records for one service", len(c.xlogs))
				if txt, ok := c.lookup("service", l.Service); !ok || txt != name {
					x.Failf("the record names the service %q, its name was %q when it ended", txt, name)
				}
				x.Check(l.Elapsed == elapsed, "record says %d ms, the service took %d ms", l.Elapsed, elapsed)
				x.Check(l.Status == status, "record has status %d, it was %d", l.Status, status)
				if l.Error == 0 {
					x.Check(errText == "", "record has no error, it was %q", errText)
				} else {
					txt, _ := c.lookup("error", l.Error)
					x.Check(txt == errText, "record has error %q, it was %q when the service ended", txt, errText)
				}
				profileExact(x, c, id, l)
				x.Case()
			}},
		}})
}
