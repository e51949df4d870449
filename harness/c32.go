package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vpprof"
	"vshim/vrand"
	"vshim/vsched"
)

// household is what a running agent holds.
type household struct {
	tasks, files, sockets, conns, active int
}

func held(c *collectorEnd) (h household) {
	h.tasks, h.files, h.sockets, h.active = vsched.NumAlive(), len(vos.Opened), vnet.OpenUDP, len(activeList(c.x))
	for _, p := range c.peers {
		if !p.AgentDone {
			h.conns++
		}
	}
	return
}

// usage is one kind of thing that happens to an agent, the n-th time.
type usage struct {
	name string
	// pause is the time in ms the agent is given after each, many the number of repetitions of one round.
	pause, warm, many int
	do                func(x *X, c *collectorEnd, n int)
}

// reconnected waits for the agent to be connected.
func (c *collectorEnd) reconnected() *conn {
	ready := func() bool {
		n := len(c.peers) - 1
		return n >= 0 && !c.peers[n].AgentDone && !c.peers[n].InClosed && !c.peers[n].Reset && len(c.peers[n].Out) >= 8
	}
	// a command makes an agent whose collector has moved notice
	for i := 0; i < 2; i++ {
		vsched.BlockUntil("collector waits for a connection", ready, vsched.Now()+65000*ms)
		c.x.Check(ready(), "the agent is not connected")
		c.peers[len(c.peers)-1].Send(request("KEEP_ALIVE", nil))
		vsched.Sleep(10 * ms)
		if ready() {
			break
		}
	}
	c.x.Check(ready(), "the agent is not connected")
	p := c.peers[len(c.peers)-1]
	return &conn{x: c.x, p: p, off: len(p.Out)}
}

func usages() (l []usage) {
	const lots, some, quick, few = 50000, 10000, 4000, 1000
	add := func(name string, pause, many int, do func(x *X, c *collectorEnd, n int)) {
		u := usage{name: name, pause: pause, warm: many, many: many, do: do}
		if many == lots {
			u.warm = 25000
		}
		l = append(l, u)
	}
	add("service", 0, lots, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc(fmt.Sprint("/s", n))
		strace.EndService(ctx)
	})
	add("failing service", 0, lots, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc("/failing")
		strace.MarkAsError(ctx, fmt.Sprint("bad ", n))
		strace.EndApiCall(ctx, strace.StartApiCall(ctx, fmt.Sprint("call ", n), "a"), errors.New(fmt.Sprint("e", n)))
		strace.EndService(ctx)
	})
	add("profile", 0, lots, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc("/profiled")
		m := strace.StartCustomMethod(ctx, fmt.Sprint("m", n))
		strace.AddMessageStep(ctx, fmt.Sprint("message ", n))
		strace.AddHashedMessageStep(ctx, fmt.Sprint("hashed ", n), 1, 2)
		strace.AddPMessageStep(ctx, netdata.PMSG_INFO, "p", 1, "a", fmt.Sprint(n))
		strace.EndMethod(ctx, m)
		strace.StartCustomMethod(ctx, "left open")
		strace.StartApiCall(ctx, "left open", "")
		strace.EndService(ctx)
	})
	add("request", 0, lots, func(x *X, c *collectorEnd, n int) {
		r := httpReq("GET", fmt.Sprintf("/p%d?q=%d", n, n))
		r.Header.Set("User-Agent", fmt.Sprint("agent ", n))
		r.Header.Set("Referer", fmt.Sprint("referer ", n))
		r.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:%d", n>>16&255, n>>8&255, n&255, 1024+n%60000)
		ctx := strace.StartHttpService(bg(), r)
		strace.EndHttpService(ctx, r, nil)
	})
	add("child", 0, some, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc("/parent")
		strace.GoWithTrace(ctx, "child", func(cc context.Context) {
			strace.AddMessageStep(cc, "m")
			if n%3 == 1 {
				runtime.Goexit()
			}
		})
		strace.EndService(ctx)
	})
	add("child outliving", 3000, few, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc("/parent")
		strace.GoWithTrace(ctx, "child", func(cc context.Context) {
			vsched.Sleep(2500 * ms)
			strace.GoWithTrace(cc, "grandchild", func(context.Context) {})
		})
		strace.EndService(ctx)
	})
	add("heir", 0, lots, func(x *X, c *collectorEnd, n int) {
		ctx, _ := startSvc("/legator")
		t := tctxmanager.GetTraceContext(ctx)
		strace.EndService(ctx)
		h, _ := strace.StartNewInheritanceService(bg(), t)
		strace.EndService(h)
	})
	add("cancelled", 0, some, func(x *X, c *collectorEnd, n int) {
		d, cancel := context.WithCancel(bg())
		ctx := strace.StartService(d, "/cancelled", "")
		cancel()
		strace.EndService(ctx)
	})
	add("stuck", 25000, few, func(x *X, c *collectorEnd, n int) {
		startSvc("/stuck")
	})
	add("untraced", 0, lots, func(x *X, c *collectorEnd, n int) {
		strace.AddMessageStep(bg(), fmt.Sprint("m", n))
		strace.EndApiCall(bg(), strace.StartApiCall(bg(), fmt.Sprint("c", n), ""), nil)
		strace.MarkAsError(bg(), fmt.Sprint("e", n))
		strace.EndMethod(bg(), strace.StartMethod(bg()))
		strace.EndService(bg())
	})
	add("untraced child", 0, some, func(x *X, c *collectorEnd, n int) {
		strace.GoWithTrace(bg(), "orphan", func(context.Context) {})
	})
	add("burst", 400, few, func(x *X, c *collectorEnd, n int) {
		for i := 0; i < 60; i++ {
			ctx, _ := startSvc("/burst")
			strace.AddMessageStep(ctx, strings.Repeat("long ", 300))
			strace.EndService(ctx)
		}
	})
	add("configuration", 6000, quick, func(x *X, c *collectorEnd, n int) {
		vsched.Sleep(ms)
		vos.Put(confPath, fmt.Sprintf("send_queue_size=%d\nstuck_service_base_time_ms=20000\nunknown_%d=%d\nxlog_discard_service_patterns=/a%d,/b*%d\nudp_max_bytes=%d\n", 2000+n%7, n, n, n, n, 60000+n%5))
	})
	add("endpoint", 8000, quick, func(x *X, c *collectorEnd, n int) {
		vsched.Sleep(ms)
		vos.Put(confPath, fmt.Sprintf("stuck_service_base_time_ms=20000\nnet_collector_udp_port=%d\nnet_collector_tcp_port=%d\nobj_name=go%d\n", 6100+n, 6100+n, n%3))
	})
	add("endpoint refused", 8000, quick, func(x *X, c *collectorEnd, n int) {
		key := []string{"resolve:*", "dial:*"}[n%2]
		vnet.UDPFail[key] = true
		vsched.Sleep(ms)
		vos.Put(confPath, fmt.Sprintf("stuck_service_base_time_ms=20000\nnet_collector_udp_port=%d\n", 16100+n))
		vsched.Sleep(7000 * ms)
		delete(vnet.UDPFail, key)
		vos.Put(confPath, fmt.Sprintf("stuck_service_base_time_ms=20000\nnet_collector_udp_port=%d\n", 26100+n))
	})
	add("connection lost", 5000, quick, func(x *X, c *collectorEnd, n int) {
		c.reconnected().p.InClosed = true
	})
	add("connection reset", 5000, quick, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		k.p.Send([]byte{0, 0, 0, 40, 1})
		k.p.Reset = true
	})
	add("malformed request", 5000, quick, func(x *X, c *collectorEnd, n int) {
		c.reconnected().p.Send([]byte{0, 0, 0, 3, 2, 'x', byte(n)})
	})
	add("refused", 5000, quick, func(x *X, c *collectorEnd, n int) {
		k, m := c.reconnected(), len(c.ats)
		c.refuse = func(i int) error {
			if i < m+2 {
				return syscall.ECONNREFUSED
			}
			return nil
		}
		k.p.InClosed = true
		vsched.Sleep(9000 * ms)
		c.refuse = nil
	})
	add("datagrams refused", 0, some, func(x *X, c *collectorEnd, n int) {
		vnet.UDPFail["write:*"] = true
		ctx, _ := startSvc("/unsent")
		strace.EndService(ctx)
		vsched.Sleep(150 * ms)
		delete(vnet.UDPFail, "write:*")
	})
	add("queries", 0, 3*few, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		ctx, id := startSvc("/asked")
		k.ask("OBJECT_ACTIVE_SERVICE_LIST", nil)
		k.asks("OBJECT_THREAD_DETAIL", map[string]interface{}{"txid": id})
		strace.EndService(ctx)
		k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})
		k.ask("LIST_CONFIGURE_WAS", nil)
		k.ask("GET_CONFIGURE_WAS", nil)
		k.ask("CONFIGURE_DESC", nil)
		k.ask("CONFIGURE_VALUE_TYPE", nil)
		k.p.Send(request("KEEP_ALIVE", nil))
		k.p.Send(request(fmt.Sprint("UNKNOWN", n), nil))
		vsched.Sleep(10 * ms)
	})
	add("save", 6000, quick, func(x *X, c *collectorEnd, n int) {
		c.reconnected().ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": fmt.Sprintf("stuck_service_base_time_ms=20000\nunknown_%d=1\n", n)})
	})
	clear := func() {
		for _, f := range vos.Files() {
			if strings.HasPrefix(f, dumpDir+"/") || strings.HasPrefix(f, binDir+"/") {
				vos.Del(f)
			}
		}
	}
	add("dumps", 0, few, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		k.ask("TRIGGER_THREAD_DUMP", nil)
		k.ask("OBJECT_DUMP_FILE_LIST", nil)
		k.ask("OBJECT_LIST_HEAP_DUMP", nil)
		vos.Put(dumpDir+"/a.log", strings.Repeat("d", 5000))
		vos.Put(binDir+"/b.pprof", strings.Repeat("e", 5000))
		k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "a.log"))
		k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "none.log"))
		k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "b.pprof"))
		k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "none.pprof"))
		k.ask("OBJECT_DELETE_HEAP_DUMP", nameParam("delfileName", "b.pprof"))
		k.ask("OBJECT_DELETE_HEAP_DUMP", nameParam("delfileName", "b.pprof"))
		vsched.Sleep(1100 * ms)
		clear()
	})
	add("recordings", 0, few, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		for _, r := range []string{"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE"} {
			k.p.Send(request(r, nil))
			k.next(false)
			vsched.Sleep(500 * ms)
			k.p.Send(request(r, nil))
			k.next(false)
			vsched.Sleep(35000 * ms)
		}
		clear()
	})
	add("refused dumps", 0, few, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		for _, key := range []string{"open:*", "write:*", "close:*"} {
			vos.Failing[key] = syscall.EIO
			for _, r := range []string{"TRIGGER_THREAD_DUMP", "OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE"} {
				k.p.Send(request(r, nil))
				k.next(false)
			}
			vsched.Sleep(35000 * ms)
			delete(vos.Failing, key)
		}
		clear()
	})
	add("recording", 0, few, func(x *X, c *collectorEnd, n int) {
		k := c.reconnected()
		k.p.Send(request("OBJECT_CALL_CPU_PROFILE", nil))
		k.next(false)
		vsched.Sleep(31000 * ms)
		clear()
	})
	add("an hour", 3600000, 24, func(x *X, c *collectorEnd, n int) {})
	return
}

// forget drops what this side has recorded.
func (c *collectorEnd) forget() {
	if n := len(c.peers); n > 0 {
		c.peers = append([]*vnet.Peer{}, c.peers[n-1])
		c.peers[0].Deadlines = nil
		if p := c.peers[0]; len(p.Out) > 8 {
			p.Out, p.In = append([]byte{}, p.Out[:8]...), append([][]byte{}, p.In...)
		}
	}
	c.ats, c.tos = nil, nil
	vnet.Datagrams, vos.Ops, vnet.Dials = nil, nil, nil
	vpprof.Writes = nil
}

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	vsched.Sweep()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc) - vrand.Retained()
}

func init() {
	const conf0 = "stuck_service_base_time_ms=20000\n"
	start := func(x *X) *collectorEnd {
		boot(conf0, "scouterx")
		c := listen(x)
		scouterx.Init()
		c.connect(0, objHash0)
		vos.Failing["write:"+logFile] = syscall.ENOSPC
		vsched.Sleep(30000 * ms)
		return c
	}
	rest := func(c *collectorEnd) household {
		for i := 0; i < 8; i++ {
			vsched.Sleep(10000 * ms)
			c.reconnected()
		}
		vsched.Settle()
		return held(c)
	}
	all := usages()
	var mixed []usage
	for _, u := range all {
		switch u.name {
		case "service", "child", "untraced child", "endpoint", "connection lost", "refused", "datagrams refused", "heir", "recording":
			mixed = append(mixed, u)
		}
	}
	register(&Property{ID: "C32",
		Bounds:      "all sequences of 3 (thorough: 4) of 26 kinds of use and trouble, with and without rest between them; all pairs of 9 kinds at the same time, 1 preemption or early timer (thorough: 2); each of 27 kinds 4000 to 175000 times (thorough: twice that)",
		Assumptions: []string{"texts already sent are remembered, up to 10000 of a kind", "the log file's size is not bounded by the agent"},
		QuickSec:    320, DeepSec: 900,
		Scenarios: []Scenario{
			{Name: "sequences", Split: 2, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				n := 3
				if x.Deep() {
					n = 4
				}
				c := start(x)
				was := rest(c)
				x.Check(was.sockets == 1 && was.conns == 1 && was.active == 0, "an idle agent holds %+v", was)
				what := ""
				pause := !x.Deep() && vsched.Choose(2, "rest in between") == 1
				for i := 0; i < n; i++ {
					u := all[vsched.Choose(len(all)-1, "what happens")]
					what += " " + u.name
					u.do(x, c, i)
					vsched.Sleep(int64(u.pause) * ms)
					if pause {
						vsched.Sleep(10000 * ms)
						what += ";"
					}
				}
				is := rest(c)
				x.Check(is == was, "after%s the agent holds %+v, before %+v", what, is, was)
				x.Observe("%s", what)
				stillWorks(x, what, true)
			}},
			{Name: "interleaved", Split: 2, MaxCost: 1, Deep: 2, One: true, Cfg: Config{TimerDev: true, MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				c := start(x)
				was := rest(c)
				what := ""
				var l [2]usage
				for i := range l {
					l[i] = mixed[vsched.Choose(len(mixed), "what happens")]
					what += " " + l[i].name
				}
				vsched.Explore(true)
				par(func() { l[0].do(x, c, 0) }, func() { l[1].do(x, c, 1) })
				vsched.Explore(false)
				vsched.Sleep(10000 * ms)
				is := rest(c)
				x.Check(is == was, "after%s at the same time the agent holds %+v, before %+v", what, is, was)
				x.Observe("%s", what)
				stillWorks(x, what, true)
			}},
			{Name: "memory", Split: 1, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				vsched.Quiet()
				u := all[vsched.Choose(len(all), "what happens")]
				many := u.many
				if x.Deep() {
					many *= 2
				}
				c := start(x)
				was := rest(c)
				// the texts the agent remembers about services are bounded
				for i := 0; i < 25000; i++ {
					ctx, _ := startSvc("/before")
					strace.EndService(ctx)
					if i%50 == 0 {
						vsched.Sleep(150 * ms)
						c.forget()
						x.Alive()
					}
				}
				var size []int64
				n, grown := 0, 0
				for r, todo := range []int{u.warm, many, many, many} {
					for i := 0; i < todo; i++ {
						u.do(x, c, n)
						n++
						if u.pause > 0 {
							vsched.Sleep(int64(u.pause) * ms)
						} else if n%50 == 0 {
							vsched.Sleep(150 * ms)
						}
						if n%50 == 0 {
							c.forget()
							x.Alive()
						}
					}
					is := rest(c)
					x.Check(is == was, "after %d times %s the agent holds %+v, before %+v", n, u.name, is, was)
					c.forget()
					size = append(size, heap())
					if r > 0 && size[r]-size[r-1] > 30000 {
						grown++
					}
				}
				x.Check(grown < 3, "%s, %d times each: the memory in use is %v", u.name, many, size)
				x.Observe("%s", u.name)
			}},
		}})
}
