package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vsched"
)

type hostKey struct{}

type nilErr struct{}

func (*nilErr) Error() string { return "nil error" }

type badParam struct{}

func (badParam) String() string { panic("String of a parameter") }

type badErr struct{}

func (badErr) Error() string { panic("Error of an error") }

// apis is every call an application makes, with ordinary and degenerate arguments. Each returns the context to go on with.
var apis = []struct {
	name string
	f    func(ctx context.Context, ran *int) context.Context
}{
	{"StartService", func(c context.Context, _ *int) context.Context { return strace.StartService(c, "/s", "1.2.3.4:1") }},
	{"StartService-empty", func(c context.Context, _ *int) context.Context { return strace.StartService(c, "", "") }},
	{"StartHttpService", func(c context.Context, _ *int) context.Context {
		return strace.StartHttpService(c, httpReq("GET", "/x?y"))
	}},
	{"StartHttpService-nil", func(c context.Context, _ *int) context.Context { return strace.StartHttpService(c, nil) }},
	{"StartHttpService-bare", func(c context.Context, _ *int) context.Context { return strace.StartHttpService(c, &http.Request{}) }},
	{"EndHttpService-nil", func(c context.Context, _ *int) context.Context { strace.EndHttpService(c, nil, nil); return c }},
	{"EndHttpService", func(c context.Context, _ *int) context.Context {
		strace.EndHttpService(c, httpReq("GET", "/"), &http.Response{StatusCode: 404})
		return c
	}},
	{"EndService", func(c context.Context, _ *int) context.Context { strace.EndService(c); return c }},
	{"GoWithTrace", func(c context.Context, ran *int) context.Context {
		*ran--
		strace.GoWithTrace(c, "/k", func(context.Context) { *ran++ })
		return c
	}},
	{"AddMessageStep", func(c context.Context, _ *int) context.Context { strace.AddMessageStep(c, ""); return c }},
	{"AddHashedMessageStep", func(c context.Context, _ *int) context.Context { strace.AddHashedMessageStep(c, "", -1, -1); return c }},
	{"AddPMessageStep", func(c context.Context, _ *int) context.Context {
		strace.AddPMessageStep(c, netdata.PMSG_FATAL, "", -5, "", "x")
		return c
	}},
	{"AddStep", func(c context.Context, _ *int) context.Context {
		strace.AddStep(c, netdata.NewMessageStep("raw", 1))
		return c
	}},
	{"AddStep-nil", func(c context.Context, _ *int) context.Context { strace.AddStep(c, nil); return c }},
	{"AddStep-dump", func(c context.Context, _ *int) context.Context { strace.AddStep(c, netdata.NewDumpStep()); return c }},
	{"MarkAsError", func(c context.Context, _ *int) context.Context { strace.MarkAsError(c, ""); return c }},
	{"MarkAsErrorForcibly", func(c context.Context, _ *int) context.Context { strace.MarkAsErrorForcibly(c, "e"); return c }},
	{"SetServiceNameForcibly", func(c context.Context, _ *int) context.Context { strace.SetServiceNameForcibly(c, ""); return c }},
	{"SetAsStream", func(c context.Context, _ *int) context.Context { strace.SetAsStream(c); strace.IsStream(c); return c }},
	{"StartMethod", func(c context.Context, _ *int) context.Context { strace.EndMethod(c, strace.StartMethod(c)); return c }},
	{"StartMethodWithParam", func(c context.Context, _ *int) context.Context {
		strace.EndMethod(c, strace.StartMethodWithParam(c, nil, 1, (*int)(nil), badParam{}))
		return c
	}},
	{"StartMethod-open", func(c context.Context, _ *int) context.Context { strace.StartCustomMethod(c, ""); return c }},
	{"EndMethod-nil", func(c context.Context, _ *int) context.Context { strace.EndMethod(c, nil); return c }},
	{"EndMethod-foreign", func(c context.Context, _ *int) context.Context {
		strace.EndMethod(c, netdata.NewMethodStep())
		return c
	}},
	{"StartApiCall", func(c context.Context, _ *int) context.Context {
		strace.EndApiCall(c, strace.StartApiCall(c, "", ""), (*nilErr)(nil))
		return c
	}},
	{"EndApiCall-nil", func(c context.Context, _ *int) context.Context { strace.EndApiCall(c, nil, errors.New("x")); return c }},
	{"EndApiCall-baderr", func(c context.Context, _ *int) context.Context {
		strace.EndApiCall(c, strace.StartApiCall(c, "a", "b"), badErr{})
		return c
	}},
	{"Propagation", func(c context.Context, _ *int) context.Context {
		strace.EndApiCall(c, strace.StartApiCallWithPropagation(c, httpReq("GET", "/"), "a", "b"), nil)
		return c
	}},
	{"Propagation-nil", func(c context.Context, _ *int) context.Context {
		strace.EndApiCall(c, strace.StartApiCallWithPropagation(c, nil, "a", "b"), nil)
		return c
	}},
	{"Propagation-bare", func(c context.Context, _ *int) context.Context {
		strace.EndApiCall(c, strace.StartApiCallWithPropagation(c, &http.Request{}, "a", "b"), nil)
		return c
	}},
	{"Inherit", func(c context.Context, _ *int) context.Context {
		var t *netio.TraceContext
		if c != nil {
			t = tctxmanager.GetTraceContext(c)
		}
		n, _ := strace.StartNewInheritanceService(c, t)
		if n != nil {
			strace.EndService(n)
		}
		return c
	}},
	{"GetActiveCount", func(c context.Context, _ *int) context.Context { tctxmanager.GetActiveCount(); return c }},
}

var degenerate = []string{
	"",
	"profile_step_max_keep_in_memory_count=0\nprofile_step_max_count=-3\nudp_max_bytes=0\nsend_queue_size=0\n",
	"profile_step_max_keep_in_memory_count=-1\nprofile_step_max_count=1\nudp_max_bytes=-1\nsend_queue_size=-1\nxlog_sampling_enabled=true\nxlog_sampling_step1_rate_pct=-5\n",
	"stuck_service_base_time_ms=-1\ntrace_activeservice_yellow_time=-1\nnet_collector_udp_port=-1\nnet_collector_tcp_port=99999999\n",
	"xlog_sampling_enabled=true\nxlog_patterned_sampling_enabled=true\nxlog_patterned_sampling_service_patterns=,,*,\nxlog_discard_service_patterns=,**,\nxlog_sampling_exclude_patterns=,\n",
	"profile_http_querystring_enabled=true\nprofile_http_header_enabled=true\nprofile_http_header_keys=,, ,\ntrace_http_client_ip_header_key= \n_trace=true\ntrace_obj_send=true\n",
	"net_collector_ip=no.such.host\nobj_name=${x}\n",
	"udp_max_bytes=1\nsend_queue_size=1\nobj_type=\nobj_name=\n",
}

const hostContexts = 8

// deadlined has a deadline, which has passed.
type deadlined struct{ context.Context }

var deadline = time.Date(2021, 3, 4, 5, 6, 7, 8, time.UTC)

func (deadlined) Deadline() (time.Time, bool) { return deadline, true }
func (deadlined) Done() <-chan struct{}       { return done }
func (deadlined) Err() error                  { return context.DeadlineExceeded }

var done = func() chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}()

// hostContext is one of the contexts an application may hand in.
func hostContext(k int) (context.Context, string) {
	base := context.WithValue(context.Background(), hostKey{}, 42)
	switch k {
	case 0:
		return nil, "nil"
	case 1:
		return base, "untraced"
	case 2:
		return strace.StartService(base, "/host", "7.7.7.7:7"), "traced"
	case 3:
		c := strace.StartService(base, "/host", "")
		strace.EndService(c)
		return c, "completed"
	}
	switch k {
	case 4:
		c, cancel := context.WithCancel(base)
		cancel()
		return c, "cancelled untraced"
	case 5:
		return deadlined{base}, "overdue"
	case 6:
		return strace.StartService(deadlined{base}, "/host", "7.7.7.7:7"), "overdue traced"
	}
	c, cancel := context.WithCancel(strace.StartHttpService(base, httpReq("GET", "/host")))
	cancel()
	return c, "cancelled"
}

func stillWorks(x *X, what string, kept bool) {
	ctx, id := startSvc("/after")
	x.Check(id != 0, "%s: the agent no longer traces", what)
	x.Check(hasActive(activeList(x), id) == 1, "%s: the agent no longer lists a new service as active", what)
	strace.AddMessageStep(ctx, "after")
	strace.EndService(ctx)
	drain()
	if kept {
		c := received(x)
		profileExact(x, c, id, completedOnce(x, c, id, "/after"))
		x.Check(len(c.stepsOf(id)) == 2, "%s: the next service has %d steps", what, len(c.stepsOf(id)))
	}
}

func init() {
	call := func(x *X, ctx context.Context, k int, what string, ran *int) context.Context {
		t := vsched.Now()
		n := apis[k].f(ctx, ran)
		x.Check(vsched.Now() == t, "%s: the call took %d ns", what, vsched.Now()-t)
		if n == nil && ctx != nil {
			x.Failf("%s: the application's context was lost", what)
		}
		if n != nil && ctx != nil && n.Value(hostKey{}) != ctx.Value(hostKey{}) {
			x.Failf("%s: the returned context does not carry the application's values", what)
		}
		if n != nil && ctx != nil {
			d, ok := ctx.Deadline()
			nd, nok := n.Deadline()
			x.Check(n.Err() == ctx.Err() && n.Done() == ctx.Done() && nok == ok && nd.Equal(d), "%s: the returned context has error %v and deadline %v, the application's %v and %v", what, n.Err(), nd, ctx.Err(), d)
		}
		if ctx != nil {
			return n
		}
		return nil
	}
	register(&Property{ID: "C07",
		Bounds:      "every sequence of 3 (thorough: 4) of 32 API calls, with ordinary and degenerate arguments, on 8 kinds of context; every single call under 8 configurations and 5 environments; 2 services at the same time with a queue of 1 to 5 packs, 1 preemption (thorough: 2); application panics under every kind of enclosing trace call",
		Assumptions: []string{"an application may be terminated by its own panics only"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "call-pairs", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				strace.StartTracingMode()
				vsched.Settle()
				ctx, what := hostContext(vsched.Choose(hostContexts, "context"))
				ran := 0
				n := 3
				if x.Deep() {
					n = 4
				}
				for i := 0; i < n; i++ {
					k := vsched.Choose(len(apis), "call")
					what += " " + apis[k].name
					ctx = call(x, ctx, k, what, &ran)
				}
				stillWorks(x, what, true)
				x.Check(ran == 0, "%s: functions run minus functions started is %d", what, ran)
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "configurations", Body: func(x *X) {
				ci := vsched.Choose(len(degenerate), "config")
				env := vsched.Choose(5, "environment")
				switch env {
				case 1:
					vnet.UDPFail["resolve:*"] = true
				case 2:
					vnet.UDPFail["dial:*"] = true
				case 3:
					vos.SetHost("", errors.New("no host name"))
					vos.Failing["mkdir:*"] = 13
					vos.Failing["open:*"] = 13
				case 4:
					vnet.UDPFail["write:*"] = true
				}
				boot(degenerate[ci], "scouterx/strace")
				strace.StartTracingMode()
				vsched.Settle()
				ctx, what := hostContext(vsched.Choose(hostContexts, "context"))
				ran := 0
				k := vsched.Choose(len(apis), "call")
				what = fmt.Sprintf("config %d environment %d: %s %s", ci, env, what, apis[k].name)
				ctx = call(x, ctx, k, what, &ran)
				strace.EndService(ctx)
				stillWorks(x, what, false)
				x.Check(ran == 0, "%s: functions run minus functions started is %d", what, ran)
				x.Case()
			}},
			{Name: "application-panic", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, what := hostContext(vsched.Choose(hostContexts, "context"))
				k := vsched.Choose(4, "enclosing")
				var got interface{}
				inner := int64(0)
				func() {
					defer func() { got = recover() }()
					switch k {
					case 0:
						c := strace.StartService(ctx, "/in", "")
						inner = txidOf(c)
						defer strace.EndService(c)
					case 1:
						c := strace.StartHttpService(ctx, httpReq("GET", "/in"))
						inner = txidOf(c)
						defer strace.EndHttpService(c, nil, nil)
					case 2:
						s := strace.StartMethod(ctx)
						defer strace.EndMethod(ctx, s)
					case 3:
						s := strace.StartApiCall(ctx, "c", "")
						defer strace.EndApiCall(ctx, s, nil)
					}
					panic("application")
				}()
				x.Check(got == "application", "%s, %d: the application's panic arrived as %v", what, k, got)
				if k < 2 && inner != 0 {
					x.Check(hasActive(activeList(x), inner) == 0, "%s: a service that panicked is still active", what)
				}
				stillWorks(x, what, true)
				if k < 2 && what != "completed" && inner != 0 {
					c := received(x)
					x.Check(len(c.xlogsOf(inner)) == 1, "%s: %d records of a service that panicked", what, len(c.xlogsOf(inner)))
				}
				x.Case()
			}},
			{Name: "application-panic-async", Allow: func(x *X, o vsched.Outcome, msg string) bool {
				return o == vsched.Crash && strings.Contains(msg, "application panic 17")
			}, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				ctx, what := hostContext(vsched.Choose(hostContexts, "context"))
				strace.GoWithTrace(ctx, "/k", func(context.Context) { panic("application panic 17") })
				vsched.Settle()
				x.Failf("%s: a panic of the application's goroutine was swallowed", what)
			}},
			{Name: "no-waiting", Cfg: Config{Pkgs: []string{"scouterx/netio/udpsender", "scouterx/strace", "scouterx/netio", "scouterx/counter"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				// services at the same time with room for a few packs only
				size := 1 + vsched.Choose(5, "queue size")
				boot(keepAll+fmt.Sprintf("send_queue_size=%d\nprofile_step_max_keep_in_memory_count=2\n", size), "scouterx/strace")
				vsched.Explore(true)
				t := vsched.Now()
				serve := func(n string) func() {
					return func() {
						ctx, _ := startSvc(n)
						strace.AddMessageStep(ctx, n)
						strace.GoWithTrace(ctx, n+n, func(c context.Context) { strace.MarkAsError(c, n) })
						strace.EndService(ctx)
						x.Check(vsched.Now() == t, "queue of %d: the calls of %s waited for %d ms", size, n, (vsched.Now()-t)/ms)
					}
				}
				par(serve("/a"), serve("/b"))
				vsched.Explore(false)
				vsched.Sleep(1000 * ms)
				strace.EndService(strace.StartService(bg(), "/after", ""))
			}},
			{Name: "interceptor-contexts", Body: func(x *X) {
				// contexts derived from a traced one stay traced; values survive
				boot(keepAll, "scouterx/strace")
				ctx, id := startSvc("/s")
				d, cancel := context.WithCancel(context.WithValue(ctx, hostKey{}, 1))
				x.Check(txidOf(d) == id, "derived context is not traced")
				strace.AddMessageStep(d, "via derived")
				cancel()
				strace.AddMessageStep(d, "after cancel")
				strace.EndService(d)
				drain()
				c := received(x)
				profileExact(x, c, id, completedOnce(x, c, id, "/s"))
				x.Check(len(c.stepsOf(id)) == 3, "%d steps", len(c.stepsOf(id)))
				x.Case()
			}},
		}})
}
