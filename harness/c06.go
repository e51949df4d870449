package main

import (
	"context"
	"fmt"
	"runtime"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vsched"
)

type asyncNode struct {
	ctx      context.Context
	id       int64
	name     string
	parent   *asyncNode
	forked   int64 // when the parent started it
	began    int64 // when its function started
	ended    int64
	kids     []*asyncNode
	open     bool
	runs     int
	expSteps int
}

// checkAsync compares the records of a tree of services with what happened.
func checkAsync(x *X, c *capture, tr string, all []*asyncNode) {
	x.Check(len(c.xlogs) == len(all), "%s: %d transaction records for %d services", tr, len(c.xlogs), len(all))
	root := all[0]
	ids := map[int64]bool{}
	for _, n := range all {
		x.Check(n.id != 0 && !ids[n.id], "%s: service %s has no transaction of its own (%d)", tr, n.name, n.id)
		ids[n.id] = true
	}
	for _, n := range all {
		g := completedOnce(x, c, n.id, n.name)
		profileExact(x, c, n.id, g)
		x.Check(g.Gxid == root.id, "%s: service %s has global id %d instead of %d", tr, n.name, g.Gxid, root.id)
		if n.parent == nil {
			x.Check(g.Caller == 0 && g.XType == 1, "%s: root recorded with caller %d type %d", tr, g.Caller, g.XType)
		} else {
			x.Check(g.Caller == n.parent.id && g.XType == 4, "%s: child %s recorded with caller %d (parent %d) type %d", tr, n.name, g.Caller, n.parent.id, g.XType)
			x.Check(string(g.Ip) == "\x0a\x00\x00\x01", "%s: child %s recorded with address %v", tr, n.name, g.Ip)
			x.Check(n.ended == 0 || int64(g.Elapsed) == (n.ended-n.began)/ms, "%s: child %s recorded %d ms, its function ran for %d ms", tr, n.name, g.Elapsed, (n.ended-n.began)/ms)
			x.Check(n.runs == 1, "%s: the function of child %s ran %d times", tr, n.name, n.runs)
		}
		var links []wStep
		for _, s := range c.stepsOf(n.id) {
			if s.Type == 14 {
				links = append(links, s)
			}
		}
		want := 0
		for _, k := range n.kids {
			if n.ended == 0 || k.forked < n.ended {
				want++
			}
			for _, s := range links {
				if s.Txid == k.id {
					x.Check(int64(s.Start) == (k.forked-n.began)/ms, "%s: link from %s to %s is at %d ms, it was started at %d ms", tr, n.name, k.name, s.Start, (k.forked-n.began)/ms)
					x.Check(s.Hash == hash(k.name), "%s: link from %s to %s names %x", tr, n.name, k.name, s.Hash)
					_, ok := c.lookup("apicall", s.Hash)
					x.Check(ok, "%s: name of asynchronous call %s was never sent", tr, k.name)
				}
			}
		}
		got := map[int64]int{}
		for _, s := range links {
			got[s.Txid]++
			x.Check(got[s.Txid] == 1, "%s: %s has two links to one child", tr, n.name)
			x.Check(ids[s.Txid] && s.Txid != n.id, "%s: %s links to transaction %d, which does not exist", tr, n.name, s.Txid)
		}
		for _, k := range n.kids {
			if n.open || k.forked < n.ended {
				x.Check(got[k.id] == 1, "%s: %s has no link to its child %s", tr, n.name, k.name)
			}
		}
	}
}

func init() {
	register(&Property{ID: "C06",
		Bounds:      "all trees of up to 4 services with every order of starting, waiting and completing within 7 (thorough: 8) operations; children that return, or leave by Goexit; parent, child and grandchild interleaved at every shared access",
		Assumptions: []string{"sampling keeps all services"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "trees", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/root")
				all := []*asyncNode{{ctx: ctx, id: id, name: "/root", open: true, began: vsched.Now()}}
				depth := 7
				if x.Deep() {
					depth = 8
				}
				tr := ""
				release := map[*asyncNode]bool{}
				for i := 0; i < depth; i++ {
					op := vsched.Choose(9, "op")
					switch {
					case op < 4: // start a child of service op
						if op >= len(all) || len(all) >= 5 {
							return
						}
						p := all[op]
						k := &asyncNode{name: fmt.Sprintf("/k%d", len(all)), parent: p, forked: vsched.Now(), open: true}
						p.kids = append(p.kids, k)
						all = append(all, k)
						strace.GoWithTrace(p.ctx, k.name, func(c context.Context) {
							k.runs++
							k.ctx, k.id, k.began = c, txidOf(c), vsched.Now()
							vsched.Block("child works", func() bool { return release[k] })
							k.ended = vsched.Now()
							k.open = false
							if len(all)%2 == 0 { // leave another way
								runtime.Goexit()
							}
						})
						vsched.Settle()
						if k.ctx == nil {
							x.Failf("%s: the child's function was not started", tr)
						}
						tr += fmt.Sprintf("go%d ", op)
					case op < 8: // complete service op-4
						if op-4 >= len(all) || !all[op-4].open {
							return
						}
						n := all[op-4]
						if n.parent == nil {
							strace.EndService(n.ctx)
							n.open, n.ended = false, vsched.Now()
						} else {
							release[n] = true
							vsched.Settle()
						}
						tr += fmt.Sprintf("end%d ", op-4)
					default:
						vsched.Advance(dur(5 * ms))
						tr += "5ms "
					}
					vsched.Advance(dur(1 * ms))
				}
				for _, n := range all {
					release[n] = true
				}
				vsched.Settle()
				if all[0].open {
					strace.EndService(ctx)
					all[0].ended = vsched.Now()
				}
				x.Check(metered() == len(all), "%s: %d completions counted, %d services", tr, metered(), len(all))
				drain()
				checkAsync(x, received(x), tr, all)
				x.Case()
				x.Sample("%s", tr)
			}},
			{Name: "interleaved", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/root")
				r := &asyncNode{ctx: ctx, id: id, name: "/root", open: true, began: vsched.Now()}
				advance(3 * ms)
				k := &asyncNode{name: "/k", parent: r, open: true}
				g := &asyncNode{name: "/g", parent: k, open: true}
				r.kids = []*asyncNode{k}
				k.kids = []*asyncNode{g}
				k.forked = vsched.Now()
				vsched.Explore(true)
				strace.GoWithTrace(ctx, "/k", func(c context.Context) {
					k.runs++
					k.ctx, k.id, k.began = c, txidOf(c), vsched.Now()
					g.forked = k.began
					strace.AddMessageStep(c, "in k")
					strace.GoWithTrace(c, "/g", func(c context.Context) {
						g.runs++
						g.ctx, g.id, g.began = c, txidOf(c), vsched.Now()
						strace.AddMessageStep(c, "in g")
					})
				})
				strace.AddMessageStep(ctx, "in root")
				strace.EndService(ctx)
				vsched.Settle()
				x.Check(metered() == 3, "%d completions counted for 3 services", metered())
				x.Check(len(activeList(x)) == 0, "services are still active")
				drain()
				checkAsync(x, received(x), "interleaved", []*asyncNode{r, k, g})
				x.Observe("%d %d", len(vsched.StackHere()), 0)
			}},
			{Name: "siblings", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/root")
				r := &asyncNode{ctx: ctx, id: id, name: "/root", open: true, began: vsched.Now()}
				advance(3 * ms)
				vsched.Explore(true)
				mk := func(name string) func() {
					k := &asyncNode{name: name, parent: r, open: true, forked: vsched.Now()}
					r.kids = append(r.kids, k)
					return func() {
						strace.GoWithTrace(ctx, name, func(c context.Context) { k.runs++; k.ctx, k.id, k.began = c, txidOf(c), vsched.Now() })
					}
				}
				par(mk("/a"), mk("/b"))
				vsched.Settle()
				strace.EndService(ctx)
				drain()
				checkAsync(x, received(x), "siblings", append([]*asyncNode{r}, r.kids...))
			}},
			{Name: "untraced", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				type key struct{}
				ctxs := []context.Context{nil, context.Background(), context.WithValue(context.Background(), key{}, 7)}
				ctx := ctxs[vsched.Choose(3, "context")]
				n := 0
				for i := 0; i < 3; i++ {
					strace.GoWithTrace(ctx, "/k", func(c context.Context) {
						n++
						x.Check(c == ctx, "the function of an untraced caller did not get the caller's context")
					})
				}
				drain()
				c := received(x)
				x.Check(n == 3, "%d of 3 functions ran", n)
				x.Check(len(c.xlogs) == 0 && metered() == 0, "untraced functions were recorded")
				x.Case()
			}},
		}})
}
