package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strconv"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vos"
	"vshim/vsched"
)

type tracer struct{}

func (tracer) value(c context.Context) *netdata.MethodStep { return strace.StartMethod(c) }

func (*tracer) pointer(c context.Context) *netdata.MethodStep {
	return strace.StartMethodWithParam(c, "p")
}

func plainMethod(c context.Context) *netdata.MethodStep { return strace.StartMethod(c) }

// errProg predicts error, name and call totals of a service.
type errProg struct {
	ctx   context.Context
	id    int64
	name  string
	first string // error of the record
	calls int32
	ctime int32
	texts [][2]string
	want  []wStep
	last  string
	trace []string
	n     int
}

func (p *errProg) op(k int) {
	p.n++
	switch k {
	case 0, 1, 2:
		name := fmt.Sprintf("api%d", p.n)
		s := strace.StartApiCall(p.ctx, name, []string{"", "h:1", "h"}[k])
		vsched.Advance(dur(int64(p.n) * ms))
		var err error
		w := wStep{Type: 6, Hash: hash(name), Elapsed: int32(p.n), Txid: s.Txid}
		if k > 0 {
			w.Opt, w.Addr = 1, []string{"", "h:1", "h"}[k]
		}
		if k == 1 {
			e := fmt.Sprintf("failed %d", p.n)
			err = errors.New(e)
			w.Err = hash(e)
			p.texts = append(p.texts, [2]string{"error", e})
			if p.first == "" {
				p.first = e
			}
		}
		strace.EndApiCall(p.ctx, s, err)
		p.calls++
		p.ctime += int32(p.n)
		p.want = append(p.want, w)
		p.texts = append(p.texts, [2]string{"apicall", name})
		p.trace = append(p.trace, []string{"call", "failed-call", "call-address"}[k])
	case 3:
		e := fmt.Sprintf("marked %d", p.n)
		strace.MarkAsError(p.ctx, e)
		if p.first == "" {
			p.first = e
			p.texts = append(p.texts, [2]string{"error", e})
		}
		p.want = append(p.want, wStep{Type: 17, Hash: hash(e), Level: 3})
		p.texts = append(p.texts, [2]string{"hmsg", e})
		p.trace = append(p.trace, "mark")
	case 4:
		e := fmt.Sprintf("forced %d", p.n)
		strace.MarkAsErrorForcibly(p.ctx, e)
		p.first = e
		p.texts = append(p.texts, [2]string{"error", e})
		p.trace = append(p.trace, "force")
	case 5:
		p.name = fmt.Sprintf("/renamed%d", p.n)
		strace.SetServiceNameForcibly(p.ctx, p.name)
		p.texts = append(p.texts, [2]string{"service", p.name})
		p.trace = append(p.trace, "rename")
	case 6:
		prm := [][]string{nil, {""}, {"a"}, {"a", "b\x03c", ""}}[p.n%4]
		m := fmt.Sprintf("pm%d", p.n)
		lv := []netdata.PMessageLevel{netdata.PMSG_DEBUG, netdata.PMSG_INFO, netdata.PMSG_WARN, netdata.PMSG_FATAL}[(p.n/2)%4]
		strace.AddPMessageStep(p.ctx, lv, m, int32(p.n*100), prm...)
		t := ""
		for _, q := range prm {
			t += q + "\x03"
		}
		p.want = append(p.want, wStep{Type: 17, Hash: hash(m), Level: int32(lv), Elapsed: int32(p.n * 100), Text: t})
		p.texts = append(p.texts, [2]string{"hmsg", m})
		p.trace = append(p.trace, "pmsg")
	case 7:
		m := fmt.Sprintf("method%d", p.n)
		s := strace.StartCustomMethod(p.ctx, m)
		vsched.Advance(dur(int64(p.n) * ms))
		strace.EndMethod(p.ctx, s)
		p.want = append(p.want, wStep{Type: 1, Hash: hash(m), Elapsed: int32(p.n)})
		p.texts = append(p.texts, [2]string{"method", m})
		p.last = m
		p.trace = append(p.trace, "method")
	}
}

// moody cannot be printed.
type moody struct{ x int }

func (m moody) String() string { panic("moody") }

func init() {
	register(&Property{ID: "C12",
		Bounds:      "all programs of 5 (thorough: 6) operations over 8 kinds (calls with and without error and address, error marks, renames, messages, methods); propagation for root, asynchronous child, grandchild and inherited services with 4 id sequences, 2 calls each, with new, forwarded, retried and bare requests, 3 object names and a change of the object name between them; 7 kinds of calling function; parameters whose text methods panic",
		Assumptions: []string{"the time of a call is at least 0 ms"},
		QuickSec:    60, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "programs", Body: func(x *X) {
				depth := 5
				if x.Deep() {
					depth = 6
				}
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/p")
				p := &errProg{ctx: ctx, id: id, name: "/p"}
				for i := 0; i < depth; i++ {
					p.op(vsched.Choose(8, "op"))
				}
				if p.last != "" {
					m := threadDetail(x, id)["Last trace method"]
					x.Check(m == p.last, "%v: thread detail names last method %v, expected %q", p.trace, m, p.last)
				}
				strace.EndService(ctx)
				drain()
				c := received(x)
				l := completedOnce(x, c, id, p.name)
				profileExact(x, c, id, l)
				x.Check(l.Error == hash(p.first), "%v: record has error %x, expected that of %q", p.trace, uint32(l.Error), p.first)
				x.Check(l.ApicallCount == p.calls && l.ApicallTime == p.ctime, "%v: record has %d calls in %d ms, made %d in %d", p.trace, l.ApicallCount, l.ApicallTime, p.calls, p.ctime)
				st := c.stepsOf(id)[1:]
				x.Check(len(st) == len(p.want), "%v: steps %s", p.trace, describeSteps(st))
				for i, s := range st {
					w := p.want[i]
					w.Index, w.Start = s.Index, s.Start
					x.Check(sameStep(s, w), "%v: step %+v, expected %+v", p.trace, s, w)
				}
				for _, t := range p.texts {
					g, ok := c.lookup(t[0], hash(t[1]))
					x.Check(ok && g == t[1], "%v: text %q of kind %s did not reach the collector", p.trace, t[1], t[0])
				}
				fails := 0
				if p.first != "" {
					fails = 1
				}
				x.Check(metered() == 1 && meteredErrors() == fails, "%v: metered %d of which %d failed", p.trace, metered(), meteredErrors())
				x.Case()
				x.Sample("%v", p.trace)
			}},
			{Name: "propagation", Body: func(x *X) {
				kind := vsched.Choose(5, "service kind")
				sign := vsched.Choose(4, "id seed")
				obj := []string{"go1", "app-b", "z"}[vsched.Choose(3, "object")]
				change := vsched.Choose(2, "object renamed") == 1
				shape := vsched.Choose(4, "request")
				extra := 0
				cfg := keepAll + "obj_name=" + obj + "\n"
				vsched.Advance(dur(int64(sign*sign) * 7919)) // seeds the id generator
				boot(cfg, "scouterx/strace")
				ctx, root := startSvc("/root")
				gx := root
				name := "/root"
				caller := int64(0)
				id := root
				body := func(f func(context.Context)) { f(ctx) }
				switch kind {
				case 1:
					name, caller = "/kid", root
					body = func(f func(context.Context)) { strace.GoWithTrace(ctx, "/kid", f); vsched.Sleep(15000 * ms) }
				case 2:
					name = "/grandkid"
					body = func(f func(context.Context)) {
						strace.GoWithTrace(ctx, "/kid", func(c context.Context) {
							caller = txidOf(c)
							strace.GoWithTrace(c, "/grandkid", f)
						})
						vsched.Sleep(15000 * ms)
					}
				case 3:
					name, caller = "/root", root
					body = func(f func(context.Context)) {
						c, _ := strace.StartNewInheritanceService(bg(), tctxmanager.GetTraceContext(ctx))
						f(c)
						strace.EndService(c)
					}
				case 4:
					name = "/w<GET>"
					body = func(f func(context.Context)) {
						c := strace.StartHttpService(bg(), httpReq("GET", "/w"))
						gx = txidOf(c)
						f(c)
						strace.EndService(c)
					}
				}
				var reqs [2]*http.Request
				var objs [2]string
				body(func(c context.Context) {
					id = txidOf(c)
					for i := range reqs {
						switch shape {
						case 0:
							reqs[i] = httpReq("GET", "/out")
							reqs[i].Header.Set("Accept", "x")
						case 1: // one that was received with propagation headers and is passed on
							reqs[i] = httpReq("GET", "/out")
							reqs[i].Header.Set("Accept", "x")
							for _, k := range []string{"Gxid", "Caller", "Callee", "Caller-Obj"} {
								reqs[i].Header["X-Scouter-"+k] = []string{"xstale", "x1"}
							}
						case 2: // one that is tried again
							reqs[i] = httpReq("GET", "/out")
							reqs[i].Header.Set("Accept", "x")
							strace.EndApiCall(c, strace.StartApiCallWithPropagation(c, reqs[i], fmt.Sprintf("first%d", i), "h"), errors.New("refused"))
							extra++
						case 3:
							reqs[i] = &http.Request{Method: "GET"}
						}
						objs[i] = "/host/" + obj
						s := strace.StartApiCallWithPropagation(c, reqs[i], fmt.Sprintf("out%d", i), "h")
						strace.EndApiCall(c, s, nil)
						if change && i == 0 {
							vsched.Sleep(2000 * ms)
							obj = "renamed"
							vos.Put(confPath, keepAll+"obj_name=renamed\n")
							vsched.Sleep(11000 * ms)
						}
					}
				})
				strace.EndService(ctx)
				drain()
				c := received(x)
				l := completedOnce(x, c, id, name)
				x.Check(l.Gxid == gx && l.Caller == caller, "record has global id %d caller %d, expected %d %d", l.Gxid, l.Caller, gx, caller)
				i := 0
				for _, s := range c.stepsOf(id) {
					if s.Type != 6 || s.Err != 0 {
						continue
					}
					h := reqs[i].Header
					get := func(k string) string {
						v := h["X-Scouter-"+k]
						x.Check(len(v) == 1, "header %s has %d values", k, len(v))
						return v[0]
					}
					x.Check(get("Gxid") == xid32(gx), "propagated global id %s, expected %s", get("Gxid"), xid32(gx))
					x.Check(get("Caller") == xid32(id), "propagated caller %s, expected %s", get("Caller"), xid32(id))
					x.Check(get("Callee") == xid32(s.Txid), "propagated callee %s, the call step has %s", get("Callee"), xid32(s.Txid))
					x.Check(get("Caller-Obj") == strconv.Itoa(int(hash(objs[i]))), "propagated object %s, expected %d", get("Caller-Obj"), hash(objs[i]))
					x.Check(shape == 3 && len(h) == 4 || h.Get("Accept") == "x" && len(h) == 5, "request headers are %v", h)
					x.Check(s.Txid != 0 && s.Txid != id && s.Txid != root, "call id %d is not its own", s.Txid)
					i++
				}
				x.Check(i == 2, "%d call steps of 2", i)
				x.Check(int(l.ApicallCount) == 2+extra && (l.Error != 0) == (extra > 0), "%d calls recorded, error %x", l.ApicallCount, l.Error)
				x.Case()
			}},
			{Name: "concurrent-calls", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/p")
				kid := make([]*http.Request, 2)
				slow := vsched.Choose(2, "slow") == 1
				call := func(i int, err error) func() {
					return func() {
						kid[i] = httpReq("GET", "/out")
						s := strace.StartApiCallWithPropagation(ctx, kid[i], "out", "")
						if slow {
							vsched.Sleep(int64(5+2*i) * ms)
						}
						strace.EndApiCall(ctx, s, err)
					}
				}
				vsched.Explore(true)
				par(call(0, nil), call(1, errors.New("bad")))
				vsched.Explore(false)
				strace.EndService(ctx)
				drain()
				c := received(x)
				l := completedOnce(x, c, id, "/p")
				x.Check(l.Error == hash("bad"), "error %x", l.Error)
				sum := int32(0)
				for _, s := range c.stepsOf(id) {
					if s.Type == 6 {
						sum += int32(s.Elapsed)
					}
				}
				x.Check(l.ApicallTime == sum && (!slow || sum >= 12), "calls took %d ms, recorded are %d", sum, l.ApicallTime)
				x.Check(l.ApicallCount == 2, "%d calls recorded of 2", l.ApicallCount)
				st := map[string]wStep{}
				for _, s := range c.stepsOf(id) {
					if s.Type == 6 {
						st[xid32(s.Txid)] = s
					}
				}
				x.Check(len(st) == 2, "%d call steps of 2", len(st))
				for i, r := range kid {
					s, ok := st[r.Header.Get("X-Scouter-Callee")]
					x.Check(ok && (s.Err != 0) == (i == 1), "call %d propagated a callee that is not its step", i)
					x.Check(r.Header.Get("X-Scouter-Gxid") == xid32(id), "propagated global id %s", r.Header.Get("X-Scouter-Gxid"))
				}
				x.Observe("%v", l.Error)
			}},
			{Name: "method-names", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/p")
				k := vsched.Choose(7, "caller")
				var s *netdata.MethodStep
				want := ""
				switch k {
				case 0:
					s, want = plainMethod(ctx), "plainMethod"
				case 1:
					s, want = tracer{}.value(ctx), "tracer.value"
				case 2:
					s, want = (&tracer{}).pointer(ctx), "(*tracer).pointer"
				case 3:
					f := func() *netdata.MethodStep { return strace.StartMethod(ctx) }
					s, want = f(), "func"
				case 4:
					s = strace.StartMethodWithParam(ctx, 1, "b", nil, []int{2}, (*moody)(nil), moody{})
					want = "func"
				case 5:
					s, want = strace.StartCustomMethod(ctx, "a/b.c"), "a/b.c"
				case 6:
					s, want = strace.StartCustomMethodWithParam(ctx, "", struct{ A int }{3}), ""
				}
				last, _ := threadDetail(x, id)["Last trace method"].(string)
				strace.EndMethod(ctx, s)
				strace.EndService(ctx)
				drain()
				c := received(x)
				l := completedOnce(x, c, id, "/p")
				profileExact(x, c, id, l)
				st := c.stepsOf(id)
				m := st[len(st)-1]
				x.Check(m.Type == 1, "last step is %s", stepText(m))
				t, _ := c.lookup("method", m.Hash)
				if k < 5 {
					x.Check(strings.HasPrefix(t, "main.") && strings.HasSuffix(t, "()") && strings.Contains(t, want), "method recorded as %q, called from %s", t, want)
					x.Check(last+"()" == t, "thread detail names %q, the step %q", last, t)
				} else {
					x.Check(t == want && last == want, "custom method %q recorded as %q, thread detail %q", want, t, last)
				}
				var prm []string
				switch k {
				case 2:
					prm = []string{"param: p"}
				case 4:
					prm = []string{"param: 1", "param: b", "param: [2]", "param: <nil>", "param: %!v(PANIC=String method: moody)"}
				case 6:
					prm = []string{"param: {3}"}
				}
				x.Check(fmt.Sprint(messages(st)) == fmt.Sprint(prm), "parameters recorded as %q, expected %q", messages(st), prm)
				x.Case()
			}},
		}})
}
