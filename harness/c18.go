package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vnet"
	"vshim/vos"
	"vshim/vpprof"
	"vshim/vsched"
)

// agentModel predicts the answers to commands.
type agentModel struct {
	x     *X
	conf  string
	dump  map[string]string
	bin   map[string]string
	id    int64
	start int64
	cpu   bool
}

type command struct {
	name   string
	body   []byte // parameter pack
	stream bool
	check  func(m *agentModel, what string, parts [][]byte)
}

func mapParam(p map[string]interface{}) []byte { return (&wr{}).u8(10).table(p).b }

func (c command) bytes() []byte {
	w := (&wr{}).str(c.name).raw(c.body)
	return (&wr{}).i32(int32(len(w.b))).raw(w.b).b
}

func stampOf(ns int64) string {
	return vsched.Epoch.Add(dur(ns)).Format("20060102_150405")
}

func (m *agentModel) one(what string, parts [][]byte) wMap {
	m.x.Check(len(parts) == 1, "%s: %d packs in the answer", what, len(parts))
	r := &rd{b: parts[0]}
	p, ok := r.pack().(wMap)
	m.x.Check(ok && r.err == nil && r.left() == 0, "%s: answer is not a map pack: %x", what, head(parts[0]))
	return p
}

func blobs(parts [][]byte) string {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return string(b)
}

func (m *agentModel) listing(what string, parts [][]byte, files map[string]string, bin bool) {
	a := m.one(what, parts)
	names := strList(m.x, a, "name")
	sizes, ok := a["size"].([]interface{})
	m.x.Check(ok && len(sizes) == len(names), "%s: %d names, %d sizes", what, len(names), len(sizes))
	if !bin {
		mod, ok := a["last_modified"].([]interface{})
		m.x.Check(ok && len(mod) == len(names), "%s: %d names, %d times", what, len(names), len(mod))
	}
	got := map[string]string{}
	for i, n := range names {
		if strings.HasPrefix(n, "go_cpu_") && m.cpu {
			continue
		}
		_, dup := got[n]
		m.x.Check(!dup, "%s: %s twice", what, n)
		got[n] = fmt.Sprint(sizes[i])
	}
	want := map[string]string{}
	for n, c := range files {
		if !bin || strings.HasSuffix(n, "pprof") {
			want[n] = fmt.Sprint(len(c))
		}
	}
	m.x.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s: listed %v, there are %v", what, got, want)
}

func (m *agentModel) none(what string, parts [][]byte) {
	m.x.Check(len(parts) == 0, "%s: %d packs in the answer, none expected", what, len(parts))
}

func commands(m *agentModel) (l []command) {
	perf := (&wr{}).u8(60).i64(5).str("o").u8(1).value(map[string]interface{}{"k": int64(9)}).b
	add := func(name string, body []byte, stream bool, f func(m *agentModel, what string, parts [][]byte)) {
		l = append(l, command{name, body, stream, f})
	}
	none := (*agentModel).none
	p := mapParam
	add("KEEP_ALIVE", p(nil), false, none)
	add("KEEP_ALIVE", perf, false, none)
	add("NO_SUCH_COMMAND", p(map[string]interface{}{"a": "b"}), false, none)
	add("", p(nil), false, none)
	echo := map[string]interface{}{"k": []interface{}{int64(1), "x", nil}}
	add("OBJECT_RESET_CACHE", p(echo), false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(eq(map[string]interface{}(m.one(what, parts)), echo), "%s: parameter not returned", what)
	})
	add("OBJECT_RESET_CACHE", perf, false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(len(parts) == 1 && string(parts[0]) == string(perf), "%s: parameter not returned", what)
	})
	add("TRIGGER_THREAD_DUMP", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		a := m.one(what, parts)
		n := "go_dump_" + stampOf(vsched.Now()) + ".log"
		s, _ := a["name"].(string)
		m.x.Check(strings.HasSuffix(s, n), "%s: answered %v", what, a)
		m.dump[n] = string(vpprof.Content["goroutine"])
	})
	add("OBJECT_DUMP_FILE_LIST", p(nil), false, func(m *agentModel, what string, parts [][]byte) { m.listing(what, parts, m.dump, false) })
	for _, name := range []string{"a.log", "empty.log", "missing.log", "", "../conf/scouter.conf"} {
		name := name
		add("OBJECT_DUMP_FILE_DETAIL", p(map[string]interface{}{"name": name}), true, func(m *agentModel, what string, parts [][]byte) {
			m.x.Check(blobs(parts) == m.dump[name], "%s: %q sent for %q", what, blobs(parts), name)
		})
	}
	add("OBJECT_DUMP_FILE_DETAIL", p(map[string]interface{}{"name": int64(5)}), true, none)
	add("OBJECT_DUMP_FILE_DETAIL", perf, true, none)
	add("OBJECT_LIST_HEAP_DUMP", p(nil), false, func(m *agentModel, what string, parts [][]byte) { m.listing(what, parts, m.bin, true) })
	for _, name := range []string{"b.pprof", "c.txt", "missing.pprof", "../dump/d.pprof"} {
		name := name
		want := func(m *agentModel) string {
			if name == "c.txt" {
				return ""
			}
			return m.bin[name]
		}
		add("OBJECT_DOWNLOAD_HEAP_DUMP", p(map[string]interface{}{"fileName": name}), true, func(m *agentModel, what string, parts [][]byte) {
			m.x.Check(blobs(parts) == want(m), "%s: %q sent for %q", what, blobs(parts), name)
		})
		add("OBJECT_DELETE_HEAP_DUMP", p(map[string]interface{}{"delfileName": name}), false, func(m *agentModel, what string, parts [][]byte) {
			_, there := m.bin[name]
			ok := there && name != "c.txt"
			a := m.one(what, parts)
			m.x.Check(a["success"] == ok, "%s: answered %v", what, a)
			if ok {
				delete(m.bin, name)
			}
		})
	}
	add("OBJECT_DOWNLOAD_HEAP_DUMP", p(nil), true, none)
	add("OBJECT_DOWNLOAD_HEAP_DUMP", perf, true, none)
	add("OBJECT_DELETE_HEAP_DUMP", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(m.one(what, parts)["success"] == false, "%s: success", what)
	})
	add("OBJECT_DELETE_HEAP_DUMP", perf, false, none)
	for _, name := range []string{"CPU", "BLOCK", "MUTEX"} {
		name := name
		add("OBJECT_CALL_"+name+"_PROFILE", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
			m.x.Check(m.one(what, parts)["success"] == true, "%s: no success", what)
			m.cpu = m.cpu || name == "CPU"
		})
	}
	for _, name := range []string{"BLOCK", "MUTEX"} {
		add("TRIGGER_"+name+"_PROFILE", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
			m.x.Check(len(parts) <= 1, "%s: %d packs", what, len(parts))
		})
	}
	add("GET_CONFIGURE_WAS", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		a := m.one(what, parts)
		m.x.Check(a["agentConfig"] == m.conf, "%s: text %q instead of %q", what, a["agentConfig"], m.conf)
		m.x.Check(len(strList(m.x, a, "configKey")) >= len(settings), "%s: keys missing", what)
	})
	text := "xlog_lower_bound_time_ms=77\n"
	add("SET_CONFIGURE_WAS", p(map[string]interface{}{"setConfig": text}), false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(m.one(what, parts)["result"] == "true", "%s: failed", what)
		m.conf = text
	})
	for _, v := range []map[string]interface{}{nil, {"setConfig": int64(5)}, {"setconfig": text}} {
		add("SET_CONFIGURE_WAS", p(v), false, func(m *agentModel, what string, parts [][]byte) {
			r := m.one(what, parts)["result"]
			m.x.Check(r == false || r == "false", "%s without a text: answered %v", what, r)
		})
	}
	add("SET_CONFIGURE_WAS", perf, false, func(m *agentModel, what string, parts [][]byte) {
		r := m.one(what, parts)["result"]
		m.x.Check(r == false || r == "false", "%s: answered %v", what, r)
	})
	add("LIST_CONFIGURE_WAS", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		a := m.one(what, parts)
		k, v, d := strList(m.x, a, "key"), strList(m.x, a, "value"), strList(m.x, a, "default")
		m.x.Check(len(k) == len(v) && len(k) == len(d) && len(k) >= len(settings), "%s: %d keys", what, len(k))
	})
	for _, n := range []string{"CONFIGURE_VALUE_TYPE", "CONFIGURE_DESC"} {
		add(n, p(nil), false, func(m *agentModel, what string, parts [][]byte) {
			m.x.Check(len(m.one(what, parts)) >= len(settings), "%s: keys missing", what)
		})
	}
	add("OBJECT_ACTIVE_SERVICE_LIST", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		a := activeOf(m.x, m.one(what, parts))
		m.x.Check(len(a) == 1 && a[0].Txid == xid32(m.id) && a[0].Service == "/svc" && a[0].Elapsed == (vsched.Now()-m.start)/ms, "%s: listed %v", what, a)
	})
	detail := func(txid interface{}, known bool) {
		add("OBJECT_THREAD_DETAIL", p(map[string]interface{}{"txid": txid}), false, func(m *agentModel, what string, parts [][]byte) {
			a := m.one(what, parts)
			if !known {
				m.x.Check(a["State"] == "end" && a["Service Name"] == nil, "%s: answered %v", what, a)
				return
			}
			m.x.Check(a["Service Txid"] == xid32(m.id) && a["Service Name"] == "/svc" && eq(a["Service Elapsed"], (vsched.Now()-m.start)/ms), "%s: answered %v", what, a)
		})
	}
	detail(m.id, true)
	detail(m.id+1, false)
	detail("text", false)
	add("OBJECT_THREAD_DETAIL", p(nil), false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(m.one(what, parts)["State"] == "end", "%s: state", what)
	})
	add("OBJECT_THREAD_DETAIL", perf, false, func(m *agentModel, what string, parts [][]byte) {
		m.x.Check(m.one(what, parts)["State"] == "end", "%s: state", what)
	})
	return
}

// modelAgent starts an agent with one service, some files, and the model of it.
func modelAgent(x *X) (*agentModel, *collectorEnd) {
	m := &agentModel{x: x, conf: "xlog_lower_bound_time_ms=0\n",
		dump: map[string]string{"a.log": strings.Repeat("dump ", 30), "empty.log": ""},
		bin:  map[string]string{"b.pprof": strings.Repeat("p", 700), "c.txt": "text", "d.pprof": ""}}
	for n, c := range m.dump {
		vos.Put(dumpDir+"/"+n, c)
	}
	for n, c := range m.bin {
		vos.Put(binDir+"/"+n, c)
	}
	boot(m.conf, "scouterx/strace")
	vpprof.Content = map[string][]byte{"goroutine": []byte("goroutine 1 [running]"), "block": []byte("B"), "mutex": []byte("M")}
	c := listen(x)
	strace.StartTracingMode()
	_, m.id = startSvc("/svc")
	m.start = vsched.Now()
	return m, c
}

func init() {
	register(&Property{ID: "C18",
		Bounds:      "every sequence of 3 (thorough: 4) of 45 commands with proper, missing, mistyped and foreign parameters, sent one after the other or all at once; every single and double cut of two requests, with and without delays; up to 2 (thorough: 3) short reads anywhere; 12 request sizes up to 3000000 bytes; requests of a collector to which services complete concurrently",
		Assumptions: []string{"the collector reads its answers"},
		QuickSec:    120, DeepSec: 900,
		Scenarios: []Scenario{
			{Name: "sequences", Split: 2, Body: func(x *X) {
				n := 3
				if x.Deep() {
					n = 4
				}
				m, c := modelAgent(x)
				k := c.connect(0, objHash0)
				vsched.Sleep(1000 * ms)
				cs := commands(m)
				together := vsched.Choose(2, "pipelined") == 1
				what := ""
				var todo []command
				for i := 0; i < n; i++ {
					todo = append(todo, cs[vsched.Choose(len(cs), "command")])
				}
				todo = append(todo, cs[0]) // a keep alive shows that the connection still works
				var all []byte
				for _, q := range todo {
					all = append(all, q.bytes()...)
				}
				if together {
					k.p.Send(all)
				}
				for _, q := range todo {
					what += fmt.Sprintf(" %s(%x)", q.name, head(q.body))
					if !together {
						k.p.Send(q.bytes())
					}
					parts, ok := k.next(q.stream)
					x.Check(ok, "%s: the last command was not answered", what)
					q.check(m, what, parts)
				}
				vsched.Settle()
				k.quiet(what)
				x.Check(len(c.peers) == 1 && !k.p.AgentDone, "%s: connection given up", what)
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "cuts", Body: func(x *X) {
				m, c := modelAgent(x)
				k := c.connect(0, objHash0)
				cs := commands(m)
				var q [2]command
				for _, e := range cs {
					if e.name == "OBJECT_THREAD_DETAIL" && q[0].name == "" {
						q[0] = e
					}
					if e.name == "OBJECT_RESET_CACHE" && q[1].name == "" {
						q[1] = e
					}
				}
				b := append(q[0].bytes(), q[1].bytes()...)
				i := 1 + vsched.Choose(len(b)-1, "first cut")
				j := i + vsched.Choose(len(b)-i, "second cut")
				gap := int64(vsched.Choose(3, "gap")) * 3000 * ms
				for _, e := range [][]byte{b[:i], b[i:j], b[j:]} {
					if len(e) == 0 {
						continue
					}
					k.p.Send(e)
					if gap > 0 {
						vsched.Sleep(gap)
					} else {
						vsched.Settle()
					}
				}
				m.start += 0
				what := fmt.Sprintf("requests cut at %d and %d, gap %d ms", i, j, gap/ms)
				for n, e := range q {
					parts, ok := k.next(false)
					x.Check(ok, "%s: request %d not answered", what, n)
					if n == 0 {
						x.Check(m.one(what, parts)["Service Txid"] == xid32(m.id), "%s: wrong answer", what)
					} else {
						e.check(m, what, parts)
					}
				}
				x.Check(len(c.peers) == 1 && !k.p.AgentDone, "%s: connection given up", what)
				k.quiet(what)
				x.Case()
			}},
			{Name: "short-reads", MaxCost: 2, Deep: 3, Body: func(x *X) {
				m, c := modelAgent(x)
				k := c.connect(0, objHash0)
				vsched.Sleep(1000 * ms)
				k.p.ShortRead = true
				vsched.Explore(true)
				cs := commands(m)
				for _, n := range []int{4, 8, 0, len(cs) - 5} {
					q := cs[n]
					k.p.Send(q.bytes())
					parts, ok := k.next(q.stream)
					x.Check(ok, "%s was not answered", q.name)
					q.check(m, q.name, parts)
				}
				vsched.Explore(false)
				k.quiet("short reads")
				x.Check(len(c.peers) == 1, "connection given up")
				x.Observe("x")
			}},
			{Name: "sizes", Body: func(x *X) {
				m, c := modelAgent(x)
				k := c.connect(0, objHash0)
				vsched.Sleep(1000 * ms)
				n := []int{0, 1, 253, 254, 255, 256, 65535, 65536, 70000, 1 << 20, 1<<20 + 1, 3000000}[vsched.Choose(12, "size")]
				piece := []int{1 << 30, 1460, 65536}[vsched.Choose(3, "piece")]
				s := rep(n)
				w := (&wr{}).str("OBJECT_RESET_CACHE").u8(10).dec(1).str("k").u8(60).blob([]byte(s))
				b := (&wr{}).i32(int32(len(w.b))).raw(w.b).b
				for len(b) > 0 {
					p := piece
					if p > len(b) {
						p = len(b)
					}
					k.p.Send(b[:p])
					b = b[p:]
				}
				parts, ok := k.next(false)
				x.Check(ok, "a request with %d bytes was not answered", n)
				a := m.one("echo", parts)
				got, _ := a["k"].([]byte)
				x.Check(string(got) == s, "%d bytes are returned as %d other bytes", n, len(got))
				k.ask("GET_CONFIGURE_WAS", nil)
				k.quiet("sizes")
				x.Case()
			}},
			{Name: "busy", Cfg: Config{Pkgs: []string{"scouterx/netio/tcpclient", "scouterx/strace/tctxmanager"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				m, c := modelAgent(x)
				k := c.connect(0, objHash0)
				ctx, id2 := startSvc("/second")
				vsched.Explore(true)
				var ans []string
				par(func() { strace.EndService(ctx) }, func() {
					for _, q := range []string{"OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_THREAD_DETAIL", "OBJECT_ACTIVE_SERVICE_LIST"} {
						a := k.ask(q, map[string]interface{}{"txid": id2})
						if q == "OBJECT_THREAD_DETAIL" {
							known := a["Service Name"] != nil
							x.Check(known && a["Service Txid"] == xid32(id2) && a["Service Name"] == "/second" || !known && a["State"] == "end", "detail of an ending service: %v", a)
							ans = append(ans, fmt.Sprint(known))
							continue
						}
						l := activeOf(x, a)
						n, o := hasActive(l, id2), hasActive(l, m.id)
						x.Check(o == 1 && n <= 1 && len(l) == n+1, "active list while a service ends: %v", l)
						ans = append(ans, fmt.Sprint(n == 1))
					}
				})
				vsched.Explore(false)
				x.Check(sort.SliceIsSorted(ans, func(i, j int) bool { return ans[i] == "true" && ans[j] == "false" }), "a service ended and is active again: %v", ans)
				x.Observe("%v", ans)
			}},
		}})

	// C19: connections
	type peerAct struct {
		name string
		// data sent after the greeting; what happens then
		send     []byte
		end      string // close, reset, silent, write; refuse, greeting1, greeting2: before anything is sent; stall: answers are not read
		terminal bool   // the agent must close the connection by itself because of the data
	}
	okReq := request("KEEP_ALIVE", nil)
	long := func(n uint32, b ...byte) []byte { return append((&wr{}).i32(int32(n)).b, b...) }
	acts := []peerAct{
		{"refuse", nil, "refuse", false},
		{"close", nil, "close", false},
		{"reset", nil, "reset", false},
		{"silent", nil, "silent", false},
		{"command and close", okReq, "close", false},
		{"command and silent", okReq, "silent", false},
		{"broken write", request("GET_CONFIGURE_WAS", nil), "write", false},
		{"negative length", long(0xffffffff), "silent", true},
		{"empty request", long(0), "silent", true},
		{"half a request", okReq[:len(okReq)/2], "close", false},
		{"half a request, silent", okReq[:len(okReq)/2], "silent", false},
		{"truncated pack", long(8, 4, 'K', 'E', 'E', 'P', 10, 1, 1), "silent", true},
		{"unknown pack", long(4, 1, 'K', 99, 0), "silent", true},
		{"garbage", []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), "close", false},
		{"no pack", long(2, 1, 'K'), "silent", true},
		{"huge length", append(long(0x7fffffff), 1, 2, 3), "close", false},
		{"text pack", long(3, 1, 'K', 50), "silent", false},
		{"greeting fails", nil, "greeting1", false},
		{"greeting fails halfway", nil, "greeting2", false},
		{"command, not reading", request("CONFIGURE_DESC", nil), "stall", false},
	}
	// perform plays one connection (or refusal) and returns when the agent has given it up.
	perform := func(x *X, c *collectorEnd, n int, a peerAct, what, obj string) {
		if a.end == "refuse" {
			vsched.BlockUntil("collector waits for a dial", func() bool { return len(c.ats) > n }, vsched.Now()+120000*ms)
			x.Check(len(c.ats) > n, "%s: no further connection attempt within 120 s", what)
			return
		}
		i := len(c.peers)
		if a.end == "greeting1" || a.end == "greeting2" {
			vsched.BlockUntil("collector waits for a connection", func() bool { return len(c.peers) > i }, vsched.Now()+120000*ms)
			x.Check(len(c.peers) > i, "%s: no further connection attempt within 120 s", what)
			p := c.peers[i]
			vsched.BlockUntil("collector waits for the end of a connection", func() bool { return p.AgentDone }, vsched.Now()+1000*ms)
			x.Check(p.AgentDone, "%s: connection still open after its greeting could not be sent", what)
			return
		}
		k := c.connect(i, obj)
		p := k.p
		if a.end == "write" {
			p.FailWrite = 1
		}
		if a.end == "stall" {
			p.Stall, p.Room = true, 10
		}
		if a.send != nil {
			p.Send(a.send)
			vsched.Settle()
			vsched.Sleep(10 * ms)
		}
		switch a.end {
		case "close":
			p.InClosed = true
		case "reset":
			p.Reset = true
		}
		t0 := vsched.Now()
		limit := 61000 * ms
		if a.terminal || a.end != "silent" && a.end != "stall" {
			limit = 1000 * ms
		}
		vsched.BlockUntil("collector waits for the end of a connection", func() bool { return p.AgentDone }, t0+limit)
		x.Check(p.AgentDone, "%s: connection still open after %d ms", what, limit/ms)
		if a.end == "silent" && !a.terminal {
			x.Check(vsched.Now()-t0 >= 59000*ms, "%s: an idle connection was given up after %d ms, the read timeout is 60 s", what, (vsched.Now()-t0)/ms)
		}
	}
	register(&Property{ID: "C19",
		Bounds:      "every sequence of 4 (thorough: 5) of 20 behaviours of a collector (refusal, closing, reset, silence, not reading, failing writes and greetings, 10 kinds of malformed data), followed by a working connection; every sequence of 3 (thorough: 4) changes (object name, address, port, timeouts, unchanged) by command or file, at once or while a slow connection is being made; changes interleaved with the connection loop at every shared access",
		Assumptions: []string{"a change made while the agent waits for a command takes effect after the next command or read timeout"},
		QuickSec:    120, DeepSec: 900,
		Scenarios: []Scenario{
			{Name: "behaviours", Body: func(x *X) {
				n := 4
				if x.Deep() {
					n = 5
				}
				var l []peerAct
				what := ""
				for i := 0; i < n; i++ {
					l = append(l, acts[vsched.Choose(len(acts), "behaviour")])
					what += " " + l[i].name + ","
				}
				boot("", "scouterx/strace")
				c := listen(x)
				c.prepare = func(i int, p *vnet.Peer) {
					if i < len(l) {
						switch l[i].end {
						case "greeting1":
							p.FailWrite = 1
						case "greeting2":
							p.FailWrite = 2
						}
					}
				}
				c.refuse = func(i int) error {
					for _, p := range c.peers {
						x.Check(p.AgentDone, "%s: a second connection is made while one is open", what)
					}
					if i < len(l) && l[i].end == "refuse" {
						return syscall.ECONNREFUSED
					}
					return nil
				}
				strace.StartTracingMode()
				for i, a := range l {
					perform(x, c, i, a, what, objHash0)
				}
				t0 := vsched.Now()
				k := c.connect(len(c.peers), objHash0)
				x.Check(vsched.Now()-t0 <= 61000*ms, "%s: reconnection took %d ms", what, (vsched.Now()-t0)/ms)
				x.Check(k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})["a"] == "b", "%s: the last connection does not work", what)
				x.Check(len(c.ats) == n+1, "%s: %d connection attempts, expected %d", what, len(c.ats), n+1)
				for i := 1; i < len(c.ats); i++ {
					x.Check(c.ats[i]-c.ats[i-1] >= 1000*ms, "%s: attempts %d ms apart", what, (c.ats[i]-c.ats[i-1])/ms)
				}
				for i := range c.ats {
					x.Check(c.tos[i] == 3000*ms, "%s: connection timeout %d ms", what, c.tos[i]/ms)
				}
				for _, p := range c.peers {
					for _, d := range p.Deadlines {
						x.Check(d == 60000*ms, "%s: read timeout %d ms", what, d/ms)
					}
				}
				x.Check(vsched.Alive("") >= 0, "harness")
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "patience", Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}, Body: func(x *X) {
				a := acts[vsched.Choose(len(acts), "behaviour")]
				n := 100
				if x.Deep() {
					n = 1000
				}
				what := fmt.Sprintf("%d times %s", n, a.name)
				boot("", "scouterx/strace")
				c := listen(x)
				c.prepare = func(i int, p *vnet.Peer) {
					if i < n {
						switch a.end {
						case "greeting1":
							p.FailWrite = 1
						case "greeting2":
							p.FailWrite = 2
						}
					}
				}
				c.refuse = func(i int) error {
					for _, p := range c.peers {
						x.Check(p.AgentDone, "%s: a second connection is made while one is open", what)
					}
					if i < n && a.end == "refuse" {
						return syscall.ECONNREFUSED
					}
					return nil
				}
				strace.StartTracingMode()
				for i := 0; i < n; i++ {
					perform(x, c, i, a, what, objHash0)
				}
				alive := vsched.Alive("")
				t0 := vsched.Now()
				k := c.connect(len(c.peers), objHash0)
				x.Check(vsched.Now()-t0 <= 61000*ms, "%s: reconnection took %d ms", what, (vsched.Now()-t0)/ms)
				x.Check(k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})["a"] == "b", "%s: the last connection does not work", what)
				x.Check(vsched.Alive("") <= alive, "%s: %d goroutines, %d before", what, vsched.Alive(""), alive)
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "slow-reader", Body: func(x *X) {
				// an answer of 198000 bytes is taken in pieces; the agent waits for a collector that goes on reading
				piece := []int{10, 20000, 65536, 70000, 150000}[vsched.Choose(5, "piece")]
				every := []int64{1, 1000, 20000}[vsched.Choose(3, "every")]
				stop := vsched.Choose(2, "stops") == 1
				boot("", "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				k := c.connect(0, objHash0)
				s := rep(99000)
				k.p.Stall = true
				k.p.Send(request("OBJECT_RESET_CACHE", map[string]interface{}{"a": s, "b": s}))
				vsched.Settle()
				t0 := vsched.Now()
				for vsched.Now()-t0 < 55000*ms && k.p.Room == 0 {
					k.p.Room += piece
					vsched.Sleep(every * ms)
					if every == 20000 && vsched.Now()-t0 > 35000*ms {
						break
					}
				}
				if stop && k.p.Room == 0 {
					t0 = vsched.Now()
					vsched.BlockUntil("collector waits for the end of a connection", func() bool { return k.p.AgentDone }, t0+61000*ms)
					x.Check(k.p.AgentDone, "connection still open 61 s after the collector has stopped reading")
					k = c.connect(1, objHash0)
				} else {
					k.p.Stall = false
					parts, ok := k.next(false)
					x.Check(ok && len(parts) == 1, "a slow collector gets %d parts", len(parts))
					m, _ := (&rd{b: parts[0]}).pack().(wMap)
					x.Check(m["a"] == s && m["b"] == s, "a slow collector gets another answer")
					x.Check(len(c.peers) == 1, "a slow collector is given up")
				}
				x.Check(k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})["a"] == "b", "the connection does not work after a slow answer")
				x.Case()
			}},
			{Name: "changes", Body: func(x *X) {
				type st struct{ name, ip, port, cto, rto string }
				cur := st{"go1", "127.0.0.1", "6100", "3000", "60000"}
				text := func(s st) string {
					return lines("obj_name="+s.name, "net_collector_ip="+s.ip, "net_collector_tcp_port="+s.port, "net_collector_tcp_connection_timeout_ms="+s.cto, "net_collector_tcp_so_timeout_ms="+s.rto)
				}
				change := func(s st) st {
					switch vsched.Choose(6, "change") {
					case 1:
						s.name += "x"
					case 2:
						s.ip = map[string]string{"127.0.0.1": "10.0.0.2", "10.0.0.2": "10.0.0.3", "10.0.0.3": "127.0.0.1", "10.9.9.9": "10.0.0.2"}[s.ip]
					case 3:
						s.port += "1"
						if len(s.port) > 5 {
							s.port = "6100"
						}
					case 4:
						s.cto, s.rto = s.cto+"0", s.rto+"0"
					case 5:
						s.name += "y"
						s.ip = "10.9.9.9"
					}
					return s
				}
				how := vsched.Choose(3, "by") // command, file, file while the connection is made
				boot(text(cur), "scouterx/strace")
				c := listen(x)
				var slow func()
				c.refuse = func(i int) error {
					if slow != nil {
						slow()
						slow = nil
					}
					return nil
				}
				strace.StartTracingMode()
				what := fmt.Sprintf("by %d:", how)
				n := 3
				if x.Deep() {
					n = 4
				}
				for i := 0; i <= n; i++ {
					k := c.connect(len(c.peers), "/host/"+cur.name)
					x.Check(k.p.Addr == cur.ip+":"+cur.port, "%s: connected to %s instead of %s:%s", what, k.p.Addr, cur.ip, cur.port)
					x.Check(fmt.Sprint(c.tos[len(c.tos)-1]/ms) == cur.cto, "%s: connection timeout %d", what, c.tos[len(c.tos)-1]/ms)
					k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})
					if i == n {
						break
					}
					next := change(cur)
					what += fmt.Sprintf(" %v", next)
					vsched.Sleep(1000 * ms)
					switch how {
					case 0:
						r := k.ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": text(next)})
						x.Check(r["result"] == "true", "%s: change failed", what)
					case 1:
						vos.Put(confPath, text(next))
						vsched.Sleep(6000 * ms)
						k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})
					case 2: // lose the connection; the file changes during the next dial
						old := cur
						slow = func() {
							vos.Put(confPath, text(next))
							vsched.Sleep(7000 * ms)
						}
						k.p.InClosed = true
						p := len(c.peers)
						vsched.BlockUntil("collector waits", func() bool { return len(c.peers) > p && len(c.peers[p].Out) >= 8 }, vsched.Now()+120000*ms)
						x.Check(len(c.peers) == p+1, "%s: no new connection", what)
						k2 := &conn{x: x, p: c.peers[p], off: 8}
						k2.p.Send(request("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"}))
						k2.next(false)
						k = k2
						if old.ip != next.ip || old.port != next.port {
							x.Check(k.p.Addr == old.ip+":"+old.port, "harness: dialled %s", k.p.Addr)
						}
					}
					vsched.Settle()
					same := cur.name == next.name && cur.ip == next.ip && cur.port == next.port
					if how == 2 && same {
						same = true
					}
					if !same {
						vsched.BlockUntil("collector waits for the agent to leave", func() bool { return k.p.AgentDone }, vsched.Now()+1000*ms)
						x.Check(k.p.AgentDone, "%s: the connection made under the old settings is kept", what)
					} else {
						x.Check(!k.p.AgentDone, "%s: the connection was given up without need", what)
						k.ask("OBJECT_RESET_CACHE", map[string]interface{}{"a": "b"})
						if next.rto != cur.rto {
							vsched.Settle()
							d := k.p.Deadlines[len(k.p.Deadlines)-1]
							x.Check(fmt.Sprint(d/ms) == next.rto, "%s: read timeout %d ms instead of %s", what, d/ms, next.rto)
						}
						k.p.InClosed = true
					}
					cur = next
				}
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "change-races", Cfg: Config{Pkgs: []string{"scouterx/netio/tcpclient", "scouterx/conf"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				kind := vsched.Choose(3, "change")
				boot("", "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				vsched.Settle()
				vsched.Sleep(990 * ms)
				set := []string{"obj_name=other\n", "net_collector_ip=10.1.1.1\n", "net_collector_tcp_port=7777\n"}[kind]
				vos.Put(confPath, set)
				vsched.Explore(true)
				vsched.Sleep(10 * ms) // the agent connects now
				conf.GetInstance().Refresh()
				vsched.Settle()
				vsched.Explore(false)
				obj, addr := objHash0, "127.0.0.1:6100"
				switch kind {
				case 0:
					obj = "/host/other"
				case 1:
					addr = "10.1.1.1:6100"
				case 2:
					addr = "127.0.0.1:7777"
				}
				var last *vnet.Peer
				for try := 0; try < 2; try++ {
					n := len(c.peers)
					if n == 0 || c.peers[n-1].AgentDone {
						vsched.BlockUntil("collector waits", func() bool { return len(c.peers) > n && len(c.peers[n].Out) >= 8 }, vsched.Now()+60000*ms)
						x.Check(len(c.peers) > n, "no connection")
					}
					last = c.peers[len(c.peers)-1]
					k := &conn{x: x, p: last, off: 8}
					k.p.Send(request("KEEP_ALIVE", nil))
					k.next(false)
					vsched.Settle()
				}
				k := &conn{x: x, p: last}
				r := &rd{b: k.p.Out}
				r.i32()
				x.Check(!last.AgentDone && r.i32() == hash(obj) && last.Addr == addr, "after the change and two commands the agent is connected to %s, expected %s as %s (open: %v)", last.Addr, addr, obj, !last.AgentDone)
				x.Observe("%d", len(c.peers))
			}},
		}})
}
