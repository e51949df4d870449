package main

import (
	"errors"
	"fmt"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vsched"
)

// trouble is something the environment may refuse.
type trouble struct {
	name string
	set  func(on bool)
}

func failing(key string, errno syscall.Errno) trouble {
	return trouble{key, func(on bool) {
		if on {
			vos.Failing[key] = errno
		} else {
			delete(vos.Failing, key)
		}
	}}
}

func udpFailing(key string) trouble {
	return trouble{"udp " + key, func(on bool) {
		if on {
			vnet.UDPFail[key] = true
		} else {
			delete(vnet.UDPFail, key)
		}
	}}
}

func init() {
	var tcpRefused bool
	troubles := []trouble{
		failing("open:*", syscall.EACCES), failing("mkdir:*", syscall.EROFS), failing("stat:*", syscall.EIO), failing("write:*", syscall.ENOSPC),
		failing("read:*", syscall.EIO), failing("getwd:*", syscall.ENOENT), failing("open:"+logFile, syscall.EACCES), failing("open:"+confPath, syscall.EACCES),
		{"host name", func(on bool) {
			if on {
				vos.SetHost("", errors.New("no host name"))
			} else {
				vos.SetHost("host", nil)
			}
		}},
		udpFailing("resolve:*"), udpFailing("dial:*"), udpFailing("write:*"),
		{"tcp", func(on bool) { tcpRefused = on }},
	}
	collector := func(x *X) *collectorEnd {
		tcpRefused = false
		c := listen(x)
		c.refuse = func(int) error {
			for _, p := range c.peers {
				x.Check(p.AgentDone, "a second connection is made while one is open")
			}
			if tcpRefused {
				return syscall.ECONNREFUSED
			}
			return nil
		}
		return c
	}
	// use runs a service as a host does; nothing is required of it.
	use := func() {
		ctx, _ := startSvc("/during")
		strace.AddMessageStep(ctx, "m")
		strace.EndApiCall(ctx, strace.StartApiCall(ctx, "c", ""), errors.New("e"))
		strace.EndService(ctx)
	}
	// regular requires the background tasks to run, once each, for the next 20 s.
	regular := func(x *X, what string, healed bool, k *collectorEnd) {
		vsched.BlockUntil("collector waits for a connection", func() bool {
			return len(k.peers) > 0 && !k.peers[len(k.peers)-1].AgentDone
		}, vsched.Now()+65000*ms)
		from := vsched.Now()
		x.Check(len(k.peers) > 0 && !k.peers[len(k.peers)-1].AgentDone, "%s: no connection to the collector after %d attempts", what, len(k.ats))
		con := k.wait(len(k.peers) - 1)
		x.Check(con != nil && con.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})["a"] == "b", "%s: commands are not answered", what)
		vsched.Sleep(20000 * ms)
		c := received(x)
		var n [3]int
		for _, o := range c.objs {
			if c.at[o] > from {
				n[0]++
				x.Check(o.Type == conf.GetInstance().ObjType && (!healed || o.Type == "healed"), "%s: object type %s is announced; the changed configuration is not in force", what, o.Type)
			}
		}
		for _, p := range c.perfs {
			if c.at[p] > from {
				n[p.Type/2+1]++
			}
		}
		x.Check(n[0] >= 9 && n[0] <= 11 && n[1] >= 9 && n[1] <= 11 && n[2] >= 1 && n[2] <= 3, "%s: %d heartbeats, %d real time counters and %d 5 minute counters in 20 s", what, n[0], n[1], n[2])
		stillWorks(x, what, true)
	}
	_ = regular
	firsts := []string{"scouterx/netio/udpsender", "scouterx/netio/udpclient", "scouterx/common/factory/channelfactory", "scouterx/counter", "scouterx/common/util/keygen", "scouterx/strace", "scouterx/netio"}
	tasks := []string{"scouterx", "scouterx/task/agenttask", "scouterx/task/countertask", "scouterx/strace/tctxmanager", "scouterx/netio/tcpclient", "scouterx/conf", "scouterx/netio"}
	register(&Property{ID: "C30",
		Bounds:      "every single (thorough: every two) file operation and UDP write of the start and the first 3 s refused; every pair of 13 lasting troubles from the start or after it, for 0.5, 7 or 65 s; all sequences of 3 (thorough: 4) of 7 uses with repeated initialisation; the first services of a process on 3 goroutines, 1 preemption (thorough: 2); initialisation interleaved with its own background tasks and with 2 more initialisations and services, 2 preemptions at every memory access (thorough: 3)",
		Assumptions: []string{"after the environment has healed the configuration file is written once more, so that it is read again"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "refused operations", One: true, MaxCost: 1, Deep: 2, Body: func(x *X) {
				k := collector(x)
				vos.FaultOps = map[string]bool{}
				for _, o := range []string{"open", "read", "write", "stat", "mkdir", "getwd", "close"} {
					vos.FaultOps[o] = true
				}
				vnet.UDPWriteFault = true
				vsched.Explore(true)
				boot(keepAll, "scouterx")
				use()
				vsched.Sleep(3000 * ms)
				use()
				vsched.Explore(false)
				vos.FaultOps, vnet.UDPWriteFault = nil, false
				vos.Put(confPath, keepAll+"obj_type=healed\n")
				vsched.Sleep(12000 * ms)
				regular(x, "after a refused operation", true, k)
			}},
			{Name: "troubles", Body: func(x *X) {
				i, j := vsched.Choose(len(troubles), "trouble"), vsched.Choose(len(troubles), "trouble")
				if i > j {
					return
				}
				late := vsched.Choose(2, "after the start") == 1
				lasting := []int64{500, 7000, 65000}[vsched.Choose(3, "lasting")]
				what := fmt.Sprintf("%s and %s for %d ms, late %v", troubles[i].name, troubles[j].name, lasting, late)
				k := collector(x)
				set := func(on bool) {
					troubles[i].set(on)
					troubles[j].set(on)
				}
				if !late {
					set(true)
				}
				boot(keepAll, "scouterx")
				use()
				if late {
					vsched.Sleep(4300 * ms)
					set(true)
					use()
					for _, p := range k.peers {
						p.InClosed = true
					}
				}
				for t := int64(0); t < lasting; t += 500 {
					vsched.Sleep(500 * ms)
					use()
				}
				set(false)
				vos.Put(confPath, keepAll+"obj_type=healed\n")
				vsched.Sleep(65000 * ms)
				regular(x, what, true, k)
				x.Case()
			}},
			{Name: "initialisations", Body: func(x *X) {
				k := collector(x)
				n := 3
				if x.Deep() {
					n = 4
				}
				what := ""
				boot(keepAll, "scouterx")
				for i := 0; i < n; i++ {
					o := vsched.Choose(7, "use")
					what += " " + []string{"init", "twice", "service", "wait", "config", "refresh", "init in a goroutine"}[o]
					switch o {
					case 0:
						scouterx.Init()
					case 1:
						scouterx.Init()
						scouterx.Init()
					case 2:
						use()
					case 3:
						vsched.Sleep(3100 * ms)
					case 4:
						vos.Put(confPath, keepAll+fmt.Sprintf("#%d\n", i))
					case 5:
						conf.GetInstance().Refresh()
					case 6:
						vsched.Go("initialises", scouterx.Init)
					}
				}
				vsched.Sleep(5000 * ms)
				regular(x, what, false, k)
				x.Check(len(k.peers) == 1, "%s: %d connections", what, len(k.peers))
				x.Case()
			}},
			{Name: "first use", Cfg: Config{Pkgs: firsts}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				vsched.Explore(true)
				var ids [3]int64
				serve := func(i int) func() {
					return func() {
						ctx, id := startSvc(fmt.Sprintf("/s%d", i))
						ids[i] = id
						strace.EndService(ctx)
					}
				}
				par(serve(0), serve(1), serve(2))
				vsched.Explore(false)
				vsched.Sleep(1000 * ms)
				c := received(x)
				for i, id := range ids {
					profileExact(x, c, id, completedOnce(x, c, id, fmt.Sprintf("/s%d", i)))
					for j := 0; j < i; j++ {
						x.Check(ids[j] != id, "two services have id %d", id)
					}
				}
				x.Check(metered() == 3, "%d services counted", metered())
				x.Check(vnet.OpenUDP == 1, "%d sockets are open", vnet.OpenUDP)
			}},
			{Name: "start", Recent: 1, Cfg: Config{Pkgs: tasks}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				k := collector(x)
				vsched.Explore(true)
				boot(keepAll, "scouterx")
				par(func() { scouterx.Init() }, func() { use() }, func() { scouterx.Init() })
				vsched.Explore(false)
				vsched.Sleep(5000 * ms)
				regular(x, "interleaved start", false, k)
				x.Check(len(k.peers) == 1, "%d connections", len(k.peers))
			}},
		}})
}
