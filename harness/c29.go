package main

import (
	"context"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vrand"
	"vshim/vsched"
)

// ids collects ids that must all differ.
type ids struct {
	x *X
	m map[int64]string
}

func (s *ids) add(id int64, what string) {
	s.x.Check(id > 0, "%s has id %d", what, id)
	if o, ok := s.m[id]; ok {
		s.x.Failf("%s has the same id %d as %s", what, id, o)
	}
	s.m[id] = what
}

func init() {
	keyPkgs := []string{"scouterx/common/util/keygen", "scouterx/netio", "scouterx/strace"}
	register(&Property{ID: "C29",
		Bounds:      "2-3 goroutines drawing 3 ids each and starting services, children and calls, up to 2 preemptions (thorough: 3) at every memory access; 4000 (thorough: 40000) services with children and calls of one agent; agents started at 3000 moments of the same 2 seconds (all of 0-1000 ns, all ms, powers of two), first 20 ids of each",
		Assumptions: []string{"agents are not started in the same nanosecond nor multiples of 2^31-1 ns apart (the generator has that many seeds)", "clocks of agents do not repeat"},
		QuickSec:    60, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "draws", Cfg: Config{Pkgs: keyPkgs}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				boot("", "scouterx/common/util/keygen")
				vsched.Explore(true)
				l := make([][]int64, 3)
				draw := func(i int) func() {
					return func() {
						for k := 0; k < 3; k++ {
							l[i] = append(l[i], keygen.Next())
						}
					}
				}
				par(draw(0), draw(1), draw(2))
				vsched.Explore(false)
				s := &ids{x, map[int64]string{}}
				for i := range l {
					for k, id := range l[i] {
						s.add(id, fmt.Sprintf("draw %d of goroutine %d", k, i))
					}
				}
				x.Case()
			}},
			{Name: "services", Cfg: Config{Pkgs: keyPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				vsched.Explore(true)
				l := make([][]int64, 2)
				work := func(i int) func() {
					return func() {
						ctx, id := startSvc(fmt.Sprintf("/s%d", i))
						step := strace.StartApiCall(ctx, "c", "")
						l[i] = append(l[i], id, step.Txid)
						strace.EndApiCall(ctx, step, nil)
						ctx2, id2 := startSvc(fmt.Sprintf("/t%d", i))
						l[i] = append(l[i], id2)
						strace.EndService(ctx2)
						strace.EndService(ctx)
					}
				}
				par(work(0), work(1))
				vsched.Explore(false)
				s := &ids{x, map[int64]string{}}
				for i := range l {
					for k, id := range l[i] {
						s.add(id, fmt.Sprintf("id %d of goroutine %d", k, i))
					}
				}
				drain()
				c := received(x)
				x.Check(len(c.xlogs) == 4, "%d records of 4 services", len(c.xlogs))
				for _, r := range c.xlogs {
					x.Check(s.m[r.Txid] != "", "unknown id %d recorded", r.Txid)
				}
				x.Case()
			}},
			{Name: "many", Whole: true, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				if !x.Mine() {
					return
				}
				boot("xlog_sampling_enabled=false\nprofile_off=true\n", "scouterx/strace")
				s := &ids{x, map[int64]string{}}
				n := 4000
				if x.Deep() {
					n = 40000
				}
				for i := 0; i < n; i++ {
					ctx, id := startSvc("/s")
					s.add(id, fmt.Sprintf("service %d", i))
					var st *netdata.ApiCallStep = strace.StartApiCall(ctx, "c", "")
					s.add(st.Txid, fmt.Sprintf("call %d", i))
					strace.EndApiCall(ctx, st, nil)
					st = strace.StartApiCallWithPropagation(ctx, httpReq("GET", "/x"), "c", "")
					s.add(st.Txid, fmt.Sprintf("propagated call %d", i))
					strace.EndApiCall(ctx, st, nil)
					strace.GoWithTrace(ctx, "/k", func(c context.Context) { s.add(txidOf(c), fmt.Sprintf("child %d", i)) })
					vsched.Settle()
					strace.EndService(ctx)
					x.Cases++
					if i%50 == 0 {
						vsched.Sleep(100 * ms)
					}
				}
			}},
			{Name: "agents", Whole: true, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				if !x.Mine() {
					return
				}
				moments := map[int64]bool{}
				for i := int64(0); i <= 1000; i++ {
					moments[i] = true
					moments[i*2*ms] = true
					moments[i*1000] = true
				}
				for p := int64(1); p < 2000*ms; p *= 2 {
					moments[p-1], moments[p], moments[p+1] = true, true, true
				}
				var l []int64
				for m := range moments {
					l = append(l, m)
				}
				for i := 1; i < len(l); i++ {
					for k := i; k > 0 && l[k-1] > l[k]; k-- {
						l[k-1], l[k] = l[k], l[k-1]
					}
				}
				s := &ids{x, map[int64]string{}}
				for _, m := range l {
					vsched.Advance(dur(m - vsched.Now()))
					vrand.Seed(1000003 * m) // the runtime seeds its own generator at random
					boot("", "scouterx/common/util/keygen")
					for k := 0; k < 20; k++ {
						s.add(keygen.Next(), fmt.Sprintf("id %d of the agent started at %d ns", k, m))
					}
					x.Cases++
				}
			}},
		}})
}
