package main

import (
	"context"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vsched"
)

type span struct {
	name                       string
	id                         int64
	call, began, ending, ended int
}

func threadDetail(x *X, id int64) wMap {
	p := netdata.NewMapPack()
	p.Put("txid", id)
	return mapOf(x, tcpclient.GetGoroutineDetail(p))
}

type c02svc struct {
	ctx   context.Context
	id    int64
	name  string
	ip    string
	start int64
	last  string
	open  bool
	goid  int64 // 0: not compared
}

// activeAgrees compares everything the collector can ask about active services with the model.
func activeAgrees(x *X, trace string, l []*c02svc, yellow, red int64) {
	a := activeList(x)
	n := 0
	var want [3]int64
	for _, s := range l {
		el := (vsched.Now() - s.start) / ms
		d := threadDetail(x, s.id)
		if !s.open {
			x.Check(hasActive(a, s.id) == 0, "%s: completed service %s is listed as active", trace, s.name)
			x.Check(d["State"] == "end" && d["Thread Name"] == "[No Goroutine] End" && d["Service Name"] == nil, "%s: thread detail of a completed service says %v", trace, d)
			continue
		}
		n++
		x.Check(hasActive(a, s.id) == 1, "%s: active service %s is listed %d times", trace, s.name, hasActive(a, s.id))
		for _, r := range a {
			if r.Txid == xid32(s.id) {
				x.Check(r.Service == s.name && r.Ip == s.ip && r.Elapsed == el, "%s: active list row %v, expected %s %s %d", trace, r, s.name, s.ip, el)
				x.Check(s.goid == 0 || r.Goid == s.goid, "%s: active list row %v, started by goroutine %d", trace, r, s.goid)
				x.Check(r.Nam == fmt.Sprintf("[goroutine] %d", r.Goid), "%s: active list row %v", trace, r)
			}
		}
		x.Check(d["State"] != "end" && d["Service Txid"] == xid32(s.id) && d["Service Name"] == s.name && d["Service Elapsed"] == el && d["Last trace method"] == s.last,
			"%s: thread detail %v of service %s (elapsed %d, last %q)", trace, d, s.name, el, s.last)
		x.Check(s.goid == 0 || d["Thread Name"] == fmt.Sprintf("[goroutine] %d", s.goid), "%s: thread detail %v of a service started by goroutine %d", trace, d, s.goid)
		switch {
		case el <= yellow:
			want[0]++
		case el <= red:
			want[1]++
		default:
			want[2]++
		}
	}
	x.Check(len(a) == n, "%s: %d services listed, %d active", trace, len(a), n)
	got := tctxmanager.GetActiveCount()
	x.Check(got == want, "%s: active service counts %v, expected %v", trace, got, want)
}

func init() {
	register(&Property{ID: "C02",
		Bounds:      "all sequences of 5 (thorough: 6) operations over 11 operations with 3 threshold settings; interleavings of services starting and ending on two threads while a third queries, every shared access a switch point",
		Assumptions: []string{"no more than 10000 services active at a time (2000 for the speed counts)"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "sequences", Body: func(x *X) {
				cfgs := []struct {
					y, r int64
				}{{3000, 8000}, {500, 500}, {1000, 999}}
				k := vsched.Choose(len(cfgs), "config")
				y, r := cfgs[k].y, cfgs[k].r
				boot(keepAll+fmt.Sprintf("trace_activeservice_yellow_time=%d\ntrace_activeservice_red_time=%d\nstuck_service_remove_enabled=false\n", y, r), "scouterx/strace")
				var l []*c02svc
				depth := 5
				if x.Deep() {
					depth = 6
				}
				add := func(ctx context.Context, name, ip string) {
					l = append(l, &c02svc{ctx: ctx, id: txidOf(ctx), name: name, ip: ip, start: vsched.Now(), open: true, goid: goid()})
				}
				tr := ""
				for i := 0; i < depth; i++ {
					op := vsched.Choose(11, "op")
					var first, last *c02svc
					if len(l) > 0 {
						first, last = l[0], l[len(l)-1]
					}
					if last == nil && op > 2 {
						return
					}
					switch op {
					case 0:
						n := []string{"/s", ""}[len(l)%2]
						add(strace.StartService(bg(), n, "9.8.7.6:99"), n, "9.8.7.6")
						tr += "start "
					case 1:
						add(strace.StartHttpService(bg(), httpReq("PUT", "/h?q=1")), "/h<PUT>", "10.1.2.3")
						tr += "http "
					case 2:
						advance((y + 1) * ms)
						tr += "y+1 "
					case 3:
						strace.EndService(first.ctx)
						first.open = false
						tr += "end-first "
					case 4:
						strace.EndService(last.ctx)
						last.open = false
						tr += "end-last "
					case 5:
						var cc context.Context
						n := len(l)
						strace.GoWithTrace(last.ctx, "/k", func(c context.Context) {
							cc = c
							add(c, "/k", last.ip)
							l[len(l)-1].goid = 0 // its parent's
							vsched.Sleep(1 * ms)
							activeAgrees(x, tr+"(in child)", l, y, r)
						})
						for len(l) == n {
							vsched.Settle()
						}
						vsched.Sleep(2 * ms)
						l[len(l)-1].open = false
						_ = cc
						tr += "go "
					case 6:
						if r > y {
							advance((r - y) * ms)
						}
						tr += "r-y "
					case 7:
						advance(y * ms)
						tr += "y "
					case 8:
						strace.SetServiceNameForcibly(last.ctx, "/renamed")
						last.name = "/renamed"
						tr += "rename "
					case 9:
						strace.StartCustomMethod(last.ctx, "meth")
						last.last = "meth"
						tr += "method "
					case 10:
						ctx, t := strace.StartNewInheritanceService(bg(), tctxmanager.GetTraceContext(last.ctx))
						add(ctx, last.name, last.ip)
						x.Check(t != nil && t.Txid == txidOf(ctx), "inheritance service without its own context")
						tr += "inherit "
					}
				}
				activeAgrees(x, tr, l, y, r)
				x.Case()
				x.Sample("%s yellow=%d red=%d", tr, y, r)
			}},
			{Name: "concurrent-query", Cfg: Config{Pkgs: append([]string{"scouterx/netio/tcpclient"}, svcPkgs...)}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				clock := 0
				tick := func() int { clock++; return clock }
				var spans []*span
				stay, sid := startSvc("/stay")
				spans = append(spans, &span{"/stay", sid, 0, 0, 1 << 30, 1 << 30})
				gone, gid := startSvc("/gone")
				strace.EndService(gone)
				spans = append(spans, &span{"/gone", gid, 0, 0, 0, 0})
				run := func(name string) func() {
					s := &span{name: name, began: 1 << 30, ending: 1 << 30, ended: 1 << 30}
					spans = append(spans, s)
					return func() {
						s.call = tick()
						ctx, id := startSvc(name)
						s.id = id
						s.began = tick()
						s.ending = tick()
						strace.EndService(ctx)
						s.ended = tick()
					}
				}
				vsched.Explore(true)
				par(run("/a"), run("/b"), func() {
					for i := 0; i < 2; i++ {
						t0 := tick()
						var a []active
						var ct [3]int64
						if i == 0 {
							a = activeList(x)
						} else {
							ct = tctxmanager.GetActiveCount()
						}
						t1 := tick()
						lo, hi := int64(0), int64(0)
						for _, s := range spans {
							n := 0
							if s.id != 0 {
								n = hasActive(a, s.id)
							}
							must := s.began < t0 && s.ending > t1
							may := (s.call < t1 && s.call != 0 || s.name == "/stay") && s.ended > t0
							if must {
								lo++
							}
							if may {
								hi++
							}
							if i == 0 {
								x.Check(n <= 1, "service %s is listed %d times", s.name, n)
								x.Check(!must || n == 1, "active service %s is missing from the list", s.name)
								x.Check(may || n == 0, "service %s is listed while it is not active", s.name)
							}
						}
						if i == 1 {
							sum := ct[0] + ct[1] + ct[2]
							x.Check(sum >= lo && sum <= hi, "%d active services counted, between %d and %d were active", sum, lo, hi)
							x.Observe("%d", sum)
						} else {
							x.Check(int64(len(a)) >= lo && int64(len(a)) <= hi, "%d active services listed, between %d and %d were active", len(a), lo, hi)
							x.Observe("%d", len(a))
						}
					}
				})
				vsched.Explore(false)
				a := activeList(x)
				x.Check(len(a) == 1 && hasActive(a, sid) == 1, "after all other services ended the list is %v", a)
				strace.EndService(stay)
				x.Check(len(activeList(x)) == 0, "active list is not empty at the end")
			}},
			{Name: "many", Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				{
					n := []int{1, 2, 100, 1999, 2000, 5000, 10000}[vsched.Choose(7, "n")]
					boot(keepAll+"stuck_service_remove_enabled=false\n", "scouterx/strace")
					var l []context.Context
					for i := 0; i < n; i++ {
						ctx, _ := startSvc("/s")
						l = append(l, ctx)
					}
					if n <= 2000 {
						c := tctxmanager.GetActiveCount()
						x.Check(c == [3]int64{int64(n), 0, 0}, "%d services active, counted %v", n, c)
					}
					x.Check(len(activeList(x)) == n, "%d services active, listed %d", n, len(activeList(x)))
					for i, ctx := range l {
						if i%2 == 0 {
							strace.EndService(ctx)
						}
					}
					x.Check(len(activeList(x)) == n/2, "%d services active, listed %d", n/2, len(activeList(x)))
					x.Case()
				}
			}},
		}})
}
