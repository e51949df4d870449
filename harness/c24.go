package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vsched"
)

type dictKind struct {
	name string
	send func(string) int32
}

func dictKinds() []dictKind {
	return []dictKind{
		{"service", netio.SendServiceName}, {"hmsg", netio.SendHashedMessage}, {"object", netio.SendObjName},
		{"referer", netio.SendReferer}, {"ua", netio.SendUserAgent}, {"method", netio.SendMethod},
		{"apicall", netio.SendApicall}, {"error", netio.SendError}, {"login", netio.SendLogin},
		{"desc", netio.SendDesc}, {"stackelem", netio.SendStackElement},
	}
}

// named checks that every hash in the records has its text, of the right kind, among the texts.
func named(x *X, what string, recs, texts *capture) (n int) {
	var at int64
	need := func(kind string, h int32) {
		if h == 0 {
			return
		}
		s, ok := texts.lookup(kind, h)
		x.Check(ok, "%s: the %s text of %x never arrived", what, kind, uint32(h))
		x.Check(hash(s) == h, "%s: %q arrived as the text of %x", what, s, uint32(h))
		for _, t := range texts.texts {
			if t.X == kind && t.Hash == h {
				// it was in the sender's queue by then
				x.Check(texts.at[t] <= at+100*ms, "%s: the %s text %q follows its use by %d ms", what, kind, s, (texts.at[t]-at)/ms)
				break
			}
		}
		n++
	}
	for _, l := range recs.xlogs {
		at = recs.at[l]
		need("service", l.Service)
		need("error", l.Error)
		need("ua", l.UserAgent)
		need("referer", l.Referer)
		need("hmsg", l.ThreadName)
		need("login", l.Login)
		need("desc", l.Desc)
		need("object", l.ObjHash)
	}
	for _, a := range recs.alerts {
		at = recs.at[a]
		need("object", a.ObjHash)
	}
	for _, p := range recs.profiles {
		at = recs.at[p]
		need("service", p.Service)
		need("object", p.ObjHash)
		for _, s := range p.Steps {
			switch s.Type {
			case 1:
				need("method", s.Hash)
			case 6:
				need("apicall", s.Hash)
				need("error", s.Err)
			case 9, 17:
				need("hmsg", s.Hash)
			case 14:
				need("apicall", s.Hash)
			case 12:
				for _, h := range s.Stacks {
					need("stackelem", h)
				}
			}
		}
	}
	for _, o := range recs.objs {
		at = recs.at[o]
		need("object", o.Hash)
	}
	return
}

// once checks that no text was sent twice.
func once(x *X, what string, c *capture) {
	seen := map[string]bool{}
	for _, t := range c.texts {
		k := t.X + " " + t.Text
		x.Check(!seen[k], "%s: %s text %q was sent twice", what, t.X, t.Text)
		seen[k] = true
		x.Check(hash(t.Text) == t.Hash, "%s: %q sent with hash %x", what, t.Text, uint32(t.Hash))
	}
}

func init() {
	ready := func(cfg string) {
		boot(cfg, "scouterx/strace")
		strace.StartTracingMode()
		vsched.Settle()
	}
	flush := func() { vsched.Settle(); vsched.Sleep(150 * ms); vsched.Settle() }
	register(&Property{ID: "C24",
		Bounds:      "all sequences of 5 (thorough: 6) texts or resets over 2 texts of each pair of 11 kinds; texts of 19 critical sizes up to 100000 bytes of each kind; 2 (thorough: 3) services with every combination of name, error, headers, methods, calls, messages, children and resets; 3 (thorough: 4) records of 9 kinds (heartbeat, alert, login, stuck, child, heir, failed ones ...) in every order with resets and new object names between; all bursts of 5 (thorough: 6) texts into queues of 1-3; 2-3 concurrent senders and a reset, queues of 1 and 3000, 2 preemptions (thorough: 3); more than the 10000 texts the agent remembers",
		Assumptions: []string{"texts are at most 100000 bytes long", "different texts of one kind have different hashes", "a service that runs while the collector resets the dictionary may use texts sent before"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "kinds", Whole: true, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				ready("")
				ks := dictKinds()
				n := 5
				if x.Deep() {
					n = 6
				}
				for i := range ks {
					for j := i; j < len(ks); j++ {
						for first := 0; first < 5; first++ {
							if !x.Mine() {
								continue
							}
							texts := []string{"a", "한글 text"}
							op := func(o int, since map[string]int) {
								if o == 4 {
									netio.ResetTextSent()
									for k := range since {
										delete(since, k)
									}
									vnet.Datagrams = nil
									return
								}
								k, t := ks[i], texts[o%2]
								if o >= 2 {
									k = ks[j]
								}
								h := k.send(t)
								x.Check(h == hash(t), "%s %q: hash %x", k.name, t, uint32(h))
								since[k.name+" "+t]++
							}
							ops := make([]int, n)
							ops[0] = first
							for code := 0; code < pow(5, n-1); code++ {
								for p, c := 1, code; p < n; p, c = p+1, c/5 {
									ops[p] = c % 5
								}
								netio.ResetTextSent()
								vnet.Datagrams = nil
								since := map[string]int{}
								for _, o := range ops {
									if o == 4 {
										vsched.Sleep(150 * ms) // what was queued is sent
									}
									op(o, since)
								}
								vsched.Sleep(150 * ms)
								c := received(x)
								x.Check(len(c.texts) == len(since), "kinds %s and %s, operations %v: %d texts sent, not %d", ks[i].name, ks[j].name, ops, len(c.texts), len(since))
								for _, t := range c.texts {
									x.Check(since[t.X+" "+t.Text] > 0 && t.Hash == hash(t.Text), "kinds %s and %s, operations %v: %s text %q hash %x was sent", ks[i].name, ks[j].name, ops, t.X, t.Text, uint32(t.Hash))
									delete(since, t.X+" "+t.Text)
								}
								x.Cases++
							}
						}
					}
				}
				for _, k := range ks {
					x.Check(k.send("") == 0, "an empty %s has a hash", k.name)
				}
			}},
			{Name: "sizes", Body: func(x *X) {
				ready("")
				ks := dictKinds()
				k := ks[vsched.Choose(len(ks), "kind")]
				ready := func() {
					netio.ResetTextSent()
					vnet.Datagrams = nil
				}
				for _, n := range []int{1, 127, 253, 254, 255, 256, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 59900, 60000, 60001, 65535, 65536, 100000} {
					for _, t := range []string{rep(n), strings.Repeat("한", n/3) + "é\xff\x00"[:n%3]} {
						if t == "" {
							continue
						}
						ready()
						h := k.send(t)
						x.Check(h == hash(t), "%s of %d bytes: hash %x", k.name, len(t), uint32(h))
						x.Check(k.send(t) == h, "%s of %d bytes: another hash", k.name, len(t))
						vsched.Sleep(150 * ms)
						c := received(x)
						x.Check(len(c.texts) == 1, "%s of %d bytes: %d texts sent", k.name, len(t), len(c.texts))
						got, ok := c.lookup(k.name, h)
						x.Check(ok && got == t, "%s of %d bytes: sent as %d bytes", k.name, len(t), len(got))
						x.Case()
					}
				}
			}},
			{Name: "services", Split: 4, Body: func(x *X) {
				n := 2
				if x.Deep() {
					n = 3
				}
				ready("")
				flush()
				a := []string{"/a<GET>", "b"}
				what := ""
				for i := 0; i < n; i++ {
					name := a[vsched.Choose(2, "name")]
					f := vsched.Choose(64, "contents")
					bit := func(b int) bool { return f>>uint(b)&1 == 1 }
					if i == 1 && x.Deep() {
						f |= 40
					}
					what += fmt.Sprintf("[%s %b", name, f)
					ctx, _ := startSvc("x")
					if bit(0) {
						strace.EndService(ctx)
						r := httpReq("GET", "http://h/a")
						r.Header.Set("User-Agent", name)
						r.Header.Set("Referer", "b")
						ctx = strace.StartHttpService(context.Background(), r)
					} else {
						strace.SetServiceNameForcibly(ctx, name)
					}
					if bit(1) {
						strace.EndMethod(ctx, strace.StartCustomMethod(ctx, name))
						strace.AddHashedMessageStep(ctx, name, 1, 2)
					}
					if bit(2) {
						var err error
						if bit(3) {
							err = errors.New("b")
						}
						strace.EndApiCall(ctx, strace.StartApiCall(ctx, name, "10.0.0.1"), err)
					}
					if bit(3) {
						strace.AddPMessageStep(ctx, netdata.PMSG_ERROR, "b", 1, "p")
						strace.AddHashedMessageStep(ctx, "/a<GET>", 1, 2)
					}
					if bit(4) {
						strace.MarkAsError(ctx, name)
					}
					if bit(5) {
						ch := make(chan bool, 1)
						strace.GoWithTrace(ctx, name, func(c context.Context) { ch <- true })
						flush()
					}
					if bit(0) {
						strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 200})
					} else {
						strace.EndService(ctx)
					}
					flush()
					c := received(x)
					named(x, what, c, c)
					once(x, what, c)
					x.Check(len(c.xlogs) > 0 && len(c.profiles) > 0, "%s: nothing arrived", what)
					if i+1 < n && vsched.Choose(2, "reset") == 1 {
						// the collector lost its dictionary
						tcpclient.ResetCache(nil)
						vnet.Datagrams = nil
						what += " reset"
					}
				}
				x.Case()
			}},
			{Name: "records", Split: 2, Body: func(x *X) {
				// everything that refers to texts, in every order of 3 (thorough: 4), with a reset or a new object name before any of it
				n := 3
				if x.Deep() {
					n = 4
				}
				ready(keepAll + "stuck_service_base_time_ms=5000\nstuck_service_remove_enabled=true\nstuck_service_alert_enabled=true\n")
				what := ""
				name := 0
				for i := 0; i < n; i++ {
					switch vsched.Choose(3, "before") {
					case 1:
						flush()
						tcpclient.ResetCache(nil)
						vnet.Datagrams = nil
						what += " reset"
					case 2:
						name++
						vsched.Sleep(10 * ms)
						vos.Put(confPath, keepAll+fmt.Sprintf("stuck_service_base_time_ms=5000\nstuck_service_remove_enabled=true\nstuck_service_alert_enabled=true\nobj_name=other%d\n", name))
						conf.GetInstance().Refresh()
						what += " rename"
					}
					k := vsched.Choose(9, "record")
					what += fmt.Sprint(" ", k)
					switch k {
					case 0:
						agenttask.SendObjPack()
					case 1:
						netio.SendAlert(netdata.AlertWarn, "title", "message")
					case 2:
						ctx, _ := startSvc("/s")
						strace.EndService(ctx)
					case 3:
						ctx, _ := startSvc("/l")
						t := tctxmanager.GetTraceContext(ctx)
						t.Login, t.Desc = "user", "user"
						strace.EndService(ctx)
					case 4:
						ctx, _ := startSvc("/stuck")
						vsched.Sleep(6000 * ms)
						tctxmanager.GetActiveCount()
						vsched.Settle()
						x.Check(len(received(x).alerts) > 0, "%s: no alert for a stuck service", what)
						strace.EndService(ctx)
					case 5:
						ctx, _ := startSvc("/parent")
						done := make(chan bool, 1)
						strace.GoWithTrace(ctx, "child", func(c context.Context) {
							strace.MarkAsError(c, "child error")
							done <- true
						})
						vsched.Settle()
						strace.EndService(ctx)
					case 6:
						ctx, _ := startSvc("/old")
						heir, _ := strace.StartNewInheritanceService(bg(), tctxmanager.GetTraceContext(ctx))
						strace.EndService(ctx)
						strace.EndService(heir)
					case 7:
						ctx, _ := startSvc("/p")
						func() {
							defer func() { recover() }()
							defer strace.EndService(ctx)
							panic("boom")
						}()
					case 8:
						ctx, _ := startSvc("/many")
						for j := 0; j < 3; j++ {
							s := strace.StartMethod(ctx)
							strace.EndMethod(ctx, s)
						}
						a := strace.StartApiCall(ctx, "/call", "h")
						strace.EndApiCall(ctx, a, errors.New("call failed"))
						strace.EndService(ctx)
					}
				}
				flush()
				c := received(x)
				named(x, what, c, c)
				once(x, what, c)
				x.Case()
			}},
			{Name: "bursts", Split: 2, Body: func(x *X) {
				n := 5
				if x.Deep() {
					n = 6
				}
				q := 1 + vsched.Choose(3, "queue size")
				ready(fmt.Sprintf("send_queue_size=%d\n", q))
				ks := dictKinds()
				type use struct {
					k dictKind
					t string
				}
				all := []use{{ks[0], "a"}, {ks[0], "b"}, {ks[5], "a"}, {ks[7], "c"}}
				used := map[int]bool{}
				for i := 0; i < n; i++ {
					o := vsched.Choose(len(all)+1, "text")
					if o == len(all) {
						flush()
						continue
					}
					all[o].k.send(all[o].t)
					used[o] = true
				}
				flush()
				once(x, "after a burst", received(x))
				// used again, one at a time: what was dropped is sent now, what was not is not
				for i, u := range all {
					if used[i] {
						u.k.send(u.t)
						flush()
					}
				}
				c := received(x)
				once(x, "after a burst and another use", c)
				x.Check(len(c.texts) == len(used), "%d of %d texts arrived", len(c.texts), len(used))
				for i, u := range all {
					if _, ok := c.lookup(u.k.name, hash(u.t)); used[i] && !ok {
						x.Failf("queue of %d: the %s text %q is never sent", q, u.k.name, u.t)
					}
				}
				x.Case()
			}},
			{Name: "concurrent", Cfg: Config{Pkgs: []string{"scouterx/netio", "scouterx/common/structure/lra", "scouterx/netio/udpsender"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				set := vsched.Choose(4, "case")
				q := []int{1, 3000}[vsched.Choose(2, "queue size")]
				ready(fmt.Sprintf("send_queue_size=%d\n", q))
				ks := dictKinds()
				s, m := ks[0].send, ks[5].send
				vsched.Explore(true)
				switch set {
				case 0:
					par(func() { s("a"); s("b") }, func() { s("a"); s("b") })
				case 1:
					par(func() { s("a"); m("a") }, func() { m("a"); s("a") }, func() { s("c") })
				case 2:
					s("a")
					par(func() { s("a"); s("b") }, netio.ResetTextSent)
				case 3:
					par(func() { s("a") }, func() { s("b") }, func() { vsched.Sleep(100 * ms); s("a") })
				}
				vsched.Explore(false)
				flush()
				c := received(x)
				x.Observe("%d %d", set, len(c.texts))
				if q > 1 {
					// nothing is dropped
					x.Check(c.textCount("service", "a") >= 1, "text a is lost")
					if set == 0 || set == 2 {
						x.Check(c.textCount("service", "b") >= 1, "text b is lost")
					}
					if set == 1 {
						x.Check(c.textCount("method", "a") >= 1 && c.textCount("service", "c") >= 1, "a text is lost")
					}
				}
				for i := 0; i < 2; i++ {
					for _, t := range []string{"a", "b", "c"} {
						s(t)
						flush()
						m(t)
						flush()
					}
				}
				c = received(x)
				for _, t := range []string{"a", "b", "c"} {
					x.Check(c.textCount("service", t) >= 1 && c.textCount("method", t) >= 1, "queue of %d: text %s is never sent", q, t)
				}
			}},
			{Name: "reset under load", Cfg: Config{Pkgs: svcPkgs}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				ready("")
				vsched.Explore(true)
				run := func() {
					ctx, _ := startSvc("a")
					strace.AddHashedMessageStep(ctx, "m", 0, 0)
					strace.MarkAsError(ctx, "e")
					strace.EndService(ctx)
				}
				par(run, run, func() { tcpclient.ResetCache(nil) })
				vsched.Explore(false)
				flush()
				c := received(x)
				named(x, "reset under load", c, c)
				x.Check(len(c.xlogs) == 2, "%d services arrived", len(c.xlogs))
				x.Observe("%d", len(c.texts))
				// later services give the collector everything it needs
				tcpclient.ResetCache(nil)
				vnet.Datagrams = nil
				run()
				flush()
				c = received(x)
				named(x, "after the reset", c, c)
				agenttask.SendObjPack()
				flush()
				c = received(x)
				named(x, "after the reset", c, c)
				once(x, "after the reset", c)
			}},
			{Name: "many", Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Whole: true, Body: func(x *X) {
				ready("")
				for _, k := range dictKinds() {
					if !x.Mine() {
						continue
					}
					vnet.Datagrams = nil
					netio.ResetTextSent()
					const n = 10300
					for i := 0; i < n; i++ {
						k.send(fmt.Sprint("text ", i))
						if i%1000 == 999 {
							flush()
						}
					}
					flush()
					c := received(x)
					once(x, k.name, c)
					x.Check(len(c.texts) == n, "%s: %d of %d texts arrived", k.name, len(c.texts), n)
					// the most recent ones are remembered
					vnet.Datagrams = nil
					for i := n - 100; i < n; i++ {
						k.send(fmt.Sprint("text ", i))
					}
					flush()
					x.Check(len(received(x).texts) == 0, "%s: %d recent texts are sent again", k.name, len(received(x).texts))
					x.Cases++
				}
				_ = conf.GetInstance()
			}},
		}})
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
