package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vsched"
)

// being is what is known of a service that may be inherited from.
type being struct {
	ctx            context.Context
	t              *netio.TraceContext
	id, gx, caller int64
	from, till     int64
	name           string
	ip             []byte
	xtype          int
	err            int32
	calls, ctime   int32
	sqls, stime    int32
	agent, referer string
	login, desc    string
	text           [5]string
	user           int64
	stream, open   bool
	steps          []string
	n              int
}

func (b *being) op(k int, tag string) string {
	b.n++
	if !b.open && k != 5 {
		return "closed"
	}
	switch k {
	case 0:
		e := fmt.Sprintf("error %s %d", tag, b.n)
		strace.MarkAsErrorForcibly(b.ctx, e)
		b.err = hash(e)
		return "error"
	case 1:
		s := strace.StartApiCall(b.ctx, "call "+tag, "")
		vsched.Advance(dur(7 * ms))
		strace.EndApiCall(b.ctx, s, errorOf(b.n%2 == 0))
		b.calls++
		b.ctime += 7
		if b.n%2 == 0 && b.err == 0 {
			b.err = hash("bad")
		}
		b.steps = append(b.steps, "call "+tag)
		return "call"
	case 2:
		b.name = fmt.Sprintf("/%s%d", tag, b.n)
		strace.SetServiceNameForcibly(b.ctx, b.name)
		return "rename"
	case 3:
		m := fmt.Sprintf("message %s %d", tag, b.n)
		strace.AddMessageStep(b.ctx, m)
		b.steps = append(b.steps, m)
		return "message"
	case 4:
		t := b.t
		b.login, b.desc = fmt.Sprintf("login %s %d", tag, b.n), fmt.Sprintf("desc %s %d", tag, b.n)
		t.Login, t.Desc = b.login, b.desc
		b.text = [5]string{"1" + tag, "2" + tag, "3" + tag, "4" + tag, "5" + tag}
		t.Text1, t.Text2, t.Text3, t.Text4, t.Text5 = b.text[0], b.text[1], b.text[2], b.text[3], b.text[4]
		b.sqls += 2
		b.stime += 30
		b.user += 5
		t.SqlCount, t.SqlTime, t.Userid = b.sqls, b.stime, b.user
		strace.SetAsStream(b.ctx)
		b.stream = true
		return "attributes"
	case 5:
		vsched.Advance(dur(100 * ms))
		return "100 ms"
	}
	strace.EndService(b.ctx)
	b.open, b.till = false, vsched.Now()
	return "end"
}

func errorOf(bad bool) error {
	if bad {
		return errors.New("bad")
	}
	return nil
}

func (b *being) heir(x *X, ctx context.Context) *being {
	n := *b
	n.steps = []string{"scouter inheritance step"}
	n.open = true
	n.from = vsched.Now()
	n.ctx, n.t = strace.StartNewInheritanceService(ctx, b.t)
	x.Check(n.t != nil && n.ctx != nil && txidOf(n.ctx) == n.t.Txid && n.t != b.t, "the heir is not in its context")
	n.id, n.caller = n.t.Txid, b.id
	x.Check(n.id != b.id && n.id > 0, "the heir has its predecessor's id")
	return &n
}

// check compares what arrived about an ended service.
func (b *being) check(x *X, c *capture, what string) {
	r := completedOnce(x, c, b.id, b.name)
	d := fmt.Sprintf("%s: record %+v", what, *r)
	x.Check(r.Gxid == b.gx && r.Caller == b.caller, "%s: root %d caller %d expected", d, b.gx, b.caller)
	x.Check(r.Error == b.err, "%s: error %d expected", d, b.err)
	x.Check(r.XType == b.xtype, "%s: type %d expected", d, b.xtype)
	x.Check(string(r.Ip) == string(b.ip), "%s: address %v expected", d, b.ip)
	x.Check(int64(r.Elapsed) == (b.till-b.from)/ms, "%s: %d ms expected", d, (b.till-b.from)/ms)
	x.Check(r.ApicallCount == b.calls && r.ApicallTime == b.ctime, "%s: %d calls of %d ms expected", d, b.calls, b.ctime)
	x.Check(r.SqlCount == b.sqls && r.SqlTime == b.stime, "%s: %d sqls of %d ms expected", d, b.sqls, b.stime)
	x.Check(r.Userid == b.user, "%s: user %d expected", d, b.user)
	x.Check([5]string{r.Text1, r.Text2, r.Text3, r.Text4, r.Text5} == b.text, "%s: texts %v expected", d, b.text)
	h := func(kind, s string, got int32) {
		if s == "" {
			x.Check(got == 0, "%s: no %s expected", d, kind)
			return
		}
		t, ok := c.lookup(kind, got)
		x.Check(ok && t == s, "%s: %s %q expected, got %q", d, kind, s, t)
	}
	h("login", b.login, r.Login)
	h("desc", b.desc, r.Desc)
	h("ua", b.agent, r.UserAgent)
	h("referer", b.referer, r.Referer)
	x.Check(b.t.IsStream == b.stream, "%s: stream %v expected", d, b.stream)
	profileExact(x, c, b.id, r)
	i := 0
	for _, s := range c.stepsOf(b.id)[1:] {
		got := ""
		switch s.Type {
		case 3:
			got = s.Text
		case 6:
			got, _ = c.lookup("apicall", s.Hash)
		case 17:
			continue // error marks
		default:
			x.Failf("%s: step %s", what, stepText(s))
		}
		x.Check(i < len(b.steps) && got == b.steps[i], "%s: step %d is %q, expected %v", what, i, got, b.steps)
		i++
	}
	x.Check(i == len(b.steps), "%s: %d steps of %v", what, i, b.steps)
}

// ancestor starts a service of one of 4 kinds.
func ancestor(x *X, kind int) (*being, func()) {
	b := &being{gx: 0, ip: []byte{10, 0, 0, 1}, xtype: 0, open: true, from: vsched.Now(), name: "/root"}
	fill := func(ctx context.Context) {
		b.ctx, b.t, b.id = ctx, tctxmanager.GetTraceContext(ctx), txidOf(ctx)
		if b.gx == 0 {
			b.gx = b.id
		}
	}
	switch kind {
	case 0:
		ctx, _ := startSvc("/root")
		b.xtype = 1
		fill(ctx)
	case 1:
		r := httpReq("GET", "/web?q=1")
		r.Header.Set("User-Agent", "browser")
		r.Header.Set("Referer", "from")
		fill(strace.StartHttpService(bg(), r))
		b.name, b.agent, b.referer, b.ip = "/web<GET>", "browser", "from", []byte{10, 1, 2, 3}
		b.t.HttpQuery, b.t.HttpContentType = "q=1", "text/html"
	case 2:
		p, id := startSvc("/parent")
		done := false
		strace.GoWithTrace(p, "/kid", func(c context.Context) {
			fill(c)
			vsched.BlockUntil("child runs", func() bool { return done }, 1<<62)
		})
		vsched.Settle()
		b.name, b.caller, b.gx, b.xtype = "/kid", id, id, 4
		return b, func() {
			// the function returns, which ends the service unless it was ended
			if b.open {
				b.open, b.till = false, vsched.Now()
			}
			done = true
			vsched.Settle()
			strace.EndService(p)
		}
	case 3:
		ctx, _ := startSvc("/root")
		b.xtype = 1
		fill(ctx)
		n := b.heir(x, bg())
		strace.EndService(ctx)
		return n, nil
	}
	return b, nil
}

func init() {
	type key struct{}
	register(&Property{ID: "C31",
		Bounds:      "all programs of 2 (thorough: 3) of 7 operations on a predecessor of 4 kinds, then up to 2 of 14 operations on predecessor or heir, heirs in 3 kinds of context, and heirs of heirs; an heir started while the predecessor's calls and error marks run on another goroutine, 1 preemption at every memory access (thorough: 2)",
		Assumptions: []string{"sampling keeps all services", "the HTTP status is not inherited"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "programs", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				kind := vsched.Choose(4, "predecessor")
				b, fin := ancestor(x, kind)
				n := 2
				if x.Deep() {
					n = 3
				}
				what := fmt.Sprint(kind, ":")
				for i := 0; i < n; i++ {
					what += " " + b.op(vsched.Choose(7, "before"), "p")
					if !b.open && i < n-1 {
						return // nothing more happens to it
					}
				}
				ctx := bg()
				switch vsched.Choose(3, "context") {
				case 1:
					ctx = context.WithValue(ctx, key{}, 7)
					what += " in a context with a value"
				case 2:
					ctx = b.ctx
					what += " in the predecessor's context"
				}
				h := b.heir(x, ctx)
				x.Check(h.ctx.Value(key{}) == ctx.Value(key{}), "%s: the heir's context lost a value", what)
				what += " heir"
				for i := 0; i < 2; i++ {
					if k := vsched.Choose(15, "after"); k >= 8 {
						what += " heir:" + h.op(k-8, "h")
					} else if k >= 1 {
						what += " " + b.op(k-1, "q")
					}
				}
				g := h.heir(x, bg())
				a := activeList(x)
				x.Check((hasActive(a, b.id) == 1) == b.open && (hasActive(a, h.id) == 1) == h.open && hasActive(a, g.id) == 1, "%s: active services %v", what, a)
				for _, o := range [][]*being{{b, h, g}, {g, h, b}}[vsched.Choose(2, "ends")] {
					if o == b && fin != nil {
						continue
					}
					if o.open {
						o.op(5, "")
						o.op(6, "")
					}
				}
				if fin != nil {
					fin()
				}
				drain()
				c := received(x)
				b.check(x, c, what+" (predecessor)")
				h.check(x, c, what+" (heir)")
				g.check(x, c, what+" (heir's heir)")
				x.Check(len(activeList(x)) == 0, "%s: still active", what)
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "no predecessor", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx := context.WithValue(bg(), key{}, 7)
				c, t := strace.StartNewInheritanceService(ctx, nil)
				x.Check(c != nil && c.Value(key{}) == 7 && t == nil, "without predecessor the context is %v", c)
				c, _ = strace.StartNewInheritanceService(nil, nil)
				x.Check(c != nil, "without predecessor and context there is no context")
				stillWorks(x, "no predecessor", true)
				x.Case()
			}},
			{Name: "concurrent", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				b, _ := ancestor(x, 0)
				b.op(0, "p")
				b.op(1, "p")
				first := b.err
				vsched.Explore(true)
				var h *being
				par(func() {
					strace.MarkAsErrorForcibly(b.ctx, "later")
					strace.SetServiceNameForcibly(b.ctx, "/later")
					strace.EndService(b.ctx)
				}, func() {
					h = b.heir(x, bg())
					strace.AddMessageStep(h.ctx, "m")
					strace.EndService(h.ctx)
				})
				vsched.Explore(false)
				drain()
				c := received(x)
				r := completedOnce(x, c, b.id, "/later")
				x.Check(r.Error == hash("later") && r.Caller == 0 && r.ApicallCount == 1, "predecessor's record %+v", *r)
				profileExact(x, c, b.id, r)
				l := c.xlogsOf(h.id)
				x.Check(len(l) == 1 && (l[0].Service == hash("/root") || l[0].Service == hash("/later")), "heir's records %+v", l)
				x.Check(l[0].Error == first || l[0].Error == hash("later"), "heir's error %d", l[0].Error)
				x.Check(l[0].ApicallCount == 1 && l[0].Caller == b.id && l[0].Gxid == b.gx, "heir's record %+v", *l[0])
				profileExact(x, c, h.id, l[0])
				x.Observe("%d %d", l[0].Service, l[0].Error)
			}},
		}})
}
