package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/vdeps/container/list"
	"vshim/vnet"
	"vshim/vsched"
)

func textPack(hash int, text string) *netdata.TextPack {
	return &netdata.TextPack{Xtype: "", Hash: int32(hash), Text: text}
}

// textOfSize is a text whose pack has n bytes, or the nearest possible number.
func textOfSize(n int) string {
	l := n - len(packBytes(textPack(0, "")))
	if l > 65535+4 {
		l -= 4
	} else if l > 253 {
		l -= 2
	}
	if l < 0 {
		l = 0
	}
	return rep(l)
}

// sent compares what was sent with the given packs; each must have arrived once. lossy: at most once.
func sent(x *X, what string, texts []string, max int, lossy bool) int {
	c := collect("")
	if !lossy {
		x.Check(c.bad == "", "%s: %s", what, c.bad)
	}
	for _, d := range vnet.Datagrams {
		n := len(d.Data)
		switch string(d.Data[:4]) {
		case "CAFE":
			n -= 4
		case "CAFN":
			n -= 6
		default:
			n = len((&rd{b: d.Data[20:]}).blob())
		}
		x.Check(n <= max, "%s: a datagram with %d bytes of packs", what, n)
	}
	got := map[int32]int{}
	for _, t := range c.texts {
		i := int(t.Hash)
		x.Check(i >= 0 && i < len(texts) && texts[i] == t.Text && t.X == "", "%s: text %d of %d bytes was not sent", what, i, len(t.Text))
		got[t.Hash]++
	}
	for i := range texts {
		n := got[int32(i)]
		x.Check(n == 1 || lossy && n == 0, "%s: pack %d (%d bytes of text) arrived %d times", what, i, len(texts[i]), n)
	}
	x.Check(len(c.xlogs)+len(c.profiles)+len(c.alerts)+len(c.perfs)+len(c.objs)+len(c.others) == 0, "%s: other packs arrived", what)
	return len(c.texts)
}

// ordered checks that the given packs arrived in this order, as far as they arrived.
func ordered(x *X, what string, ids ...int) {
	at := map[int32]int{}
	for i, t := range collect("").texts {
		at[t.Hash] = i + 1
	}
	last := 0
	for _, id := range ids {
		if n := at[int32(id)]; n > 0 {
			x.Check(n > last, "%s: pack %d arrived before a pack sent earlier", what, id)
			last = n
		}
	}
}

func upTo(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

// around lists pack sizes where a limit matters.
func around(max int) []int {
	m := map[int]bool{}
	for _, n := range []int{1, max / 3, max/2 - 1, max / 2, max/2 + 1, max - 9, max - 8, max - 7, max - 1, max, max + 1, 2*max - 1, 2 * max, 2*max + 1, 3 * max} {
		if n > 0 {
			m[n] = true
		}
	}
	var l []int
	for n := range m {
		l = append(l, n)
	}
	sort.Ints(l)
	return l
}

func init() {
	whole := Config{MaxSteps: 1 << 40}
	open := func(max int) *udpclient.UDPClient {
		c := udpclient.New("10.0.0.1", 6100)
		c.SetUDPMaxBytes(max)
		return c
	}
	writeList := func(x *X, c *udpclient.UDPClient, texts []string) {
		l := list.New()
		for i, t := range texts {
			l.PushBack(packBytes(textPack(i, t)))
		}
		x.Check(c.WriteBufferList(l), "list not written")
	}
	register(&Property{ID: "C22",
		Bounds:      "one pack: all limits 1..120 with all pack sizes up to 400 bytes, 12 limits up to 60000 with all sizes around their multiples, up to 99000 bytes; lists: all limits 1..40 with all lists of up to 4 (thorough: 5) packs of 0..16 bytes of text, 10 limits with all lists of up to 4 packs of 12-15 critical sizes; up to 3 failing writes (thorough: 4); order within lists",
		Assumptions: []string{"the limit leaves room for the framing within the largest datagram (65507 bytes)", "a pack needs at most 32767 datagrams"},
		QuickSec:    60, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "one pack", Whole: true, Cfg: whole, Body: func(x *X) {
				boot("", "scouterx/strace")
				one := func(c *udpclient.UDPClient, max, n int) {
					t := textOfSize(n)
					vnet.Datagrams = nil
					x.Check(c.WriteBuffer(packBytes(textPack(0, t))), "not written")
					sent(x, fmt.Sprintf("limit %d, pack of %d bytes", max, n), []string{t}, max, false)
					x.Cases++
				}
				for max := 1; max <= 120; max++ {
					if !x.Mine() {
						continue
					}
					c := open(max)
					for n := 1; n < 400; n++ {
						one(c, max, n)
					}
				}
				for _, max := range []int{200, 253, 254, 255, 256, 257, 512, 1000, 1472, 8192, 50000, 60000} {
					for k := 1; k <= 4 && k*max < 99000; k++ {
						if !x.Mine() {
							continue
						}
						c := open(max)
						for d := -12; d <= 12; d++ {
							one(c, max, k*max+d)
						}
					}
				}
			}},
			{Name: "lists", Whole: true, Cfg: whole, Body: func(x *X) {
				boot("", "scouterx/strace")
				k := 4
				if x.Deep() {
					k = 5
				}
				for max := 1; max <= 40; max++ {
					for first := 0; first <= 16; first++ {
						if !x.Mine() {
							continue
						}
						c := open(max)
						var rec func(texts []string)
						rec = func(texts []string) {
							vnet.Datagrams = nil
							writeList(x, c, texts)
							if sent(x, "", texts, max, false) != len(texts) {
								x.Failf("%d packs", len(texts))
							}
							ordered(x, "a list", upTo(len(texts))...)
							x.Cases++
							if len(texts) == k {
								return
							}
							for n := 0; n <= 16; n++ {
								rec(append(texts[:len(texts):len(texts)], rep(n)))
							}
						}
						rec([]string{rep(first)})
					}
				}
			}},
			{Name: "critical lists", Whole: true, Cfg: whole, Body: func(x *X) {
				boot("", "scouterx/strace")
				for _, max := range []int{10, 16, 24, 40, 64, 100, 253, 300, 1472, 33000} {
					k := 4
					if max > 1000 {
						k = 3
					}
					ar := around(max)
					for _, first := range ar {
						if !x.Mine() {
							continue
						}
						c := open(max)
						var rec func(texts []string)
						rec = func(texts []string) {
							vnet.Datagrams = nil
							writeList(x, c, texts)
							sent(x, fmt.Sprintf("limit %d, a list", max), texts, max, false)
							ordered(x, fmt.Sprintf("limit %d, a list", max), upTo(len(texts))...)
							x.Cases++
							if len(texts) == k {
								return
							}
							for _, n := range ar {
								rec(append(texts[:len(texts):len(texts)], textOfSize(n)))
							}
						}
						rec([]string{textOfSize(first)})
					}
				}
			}},
			{Name: "many", Whole: true, Cfg: whole, Body: func(x *X) {
				// lists of many packs of one size
				boot("", "scouterx/strace")
				for _, max := range []int{20, 60, 1000, 60000} {
					for _, n := range []int{8, 9, 12, 19, 20, 21, 60, 61, 500} {
						if !x.Mine() {
							continue
						}
						c := open(max)
						for _, count := range []int{0, 1, 2, 100, 3000, 9000} {
							texts := make([]string, count)
							for i := range texts {
								texts[i] = textOfSize(n)
							}
							vnet.Datagrams = nil
							writeList(x, c, texts)
							sent(x, fmt.Sprintf("limit %d, %d packs of %d bytes", max, count, n), texts, max, false)
							ordered(x, fmt.Sprintf("limit %d, %d packs of %d bytes", max, count, n), upTo(len(texts))...)
							x.Cases++
						}
					}
				}
			}},
			{Name: "fragment ids", Whole: true, Cfg: whole, Body: func(x *X) {
				// fragments of different packs are told apart by the id alone, also when packs follow at once or much later
				boot("", "scouterx/strace")
				if !x.Mine() {
					return
				}
				c := open(20)
				seen := map[int64]bool{}
				for i := 0; i < 30000; i++ {
					if i%1000 == 0 {
						vsched.Sleep(1000 * ms)
					}
					vnet.Datagrams = nil
					c.WriteBuffer(packBytes(textPack(i, rep(20))))
					id := int64(0)
					for _, d := range vnet.Datagrams {
						r := &rd{b: d.Data[8:]}
						id = r.i64()
					}
					x.Check(len(vnet.Datagrams) == 2 && !seen[id], "pack %d: %d datagrams, id %x used before: %v", i, len(vnet.Datagrams), id, seen[id])
					seen[id] = true
				}
				x.Cases++
			}},
			{Name: "failing writes", One: true, MaxCost: 3, Deep: 4, Body: func(x *X) {
				boot("", "scouterx/strace")
				max := []int{30, 60}[vsched.Choose(2, "limit")]
				kind := vsched.Choose(2, "call")
				c := open(max)
				vnet.UDPWriteFault = true
				vsched.Explore(true)
				texts := []string{rep(5), rep(12), rep(70), rep(6), rep(30), rep(3), rep(100)}
				if kind == 0 {
					writeList(x, c, texts)
				} else {
					for i, t := range texts {
						c.WriteBuffer(packBytes(textPack(i, t)))
					}
				}
				vsched.Explore(false)
				vnet.UDPWriteFault = false
				n := sent(x, "failing writes", texts, max, true)
				ordered(x, "failing writes", upTo(len(texts))...)
				x.Observe("%d", n)
				vnet.Datagrams = nil
				writeList(x, c, texts)
				sent(x, "after failing writes", texts, max, false)
			}},
			{Name: "closed", Body: func(x *X) {
				// without a socket nothing is written, and the caller learns it
				boot("", "scouterx/strace")
				k := []string{"resolve:*", "dial:*"}[vsched.Choose(2, "failure")]
				vnet.UDPFail[k] = true
				c := open(30)
				x.Check(!c.WriteBuffer([]byte("abc")), "written without a socket")
				x.Check(!c.WriteBuffer([]byte(rep(100))), "written without a socket")
				l := list.New()
				l.PushBack([]byte("abc"))
				x.Check(!c.WriteBufferList(l), "written without a socket")
				x.Case()
			}},
		}})

	// C23: the sender
	start := func(cfg string) *udpsender.UDPSender {
		boot(cfg, "scouterx/strace")
		strace.StartTracingMode()
		s := udpsender.GetInstance()
		vsched.Settle()
		return s
	}
	settle := func() {
		vsched.Explore(false)
		vsched.Settle()
		vsched.Sleep(3000 * ms)
		vsched.Settle()
	}
	oneSocket := func(x *X, to string) {
		x.Check(vnet.OpenUDP == 1, "%d sockets are open", vnet.OpenUDP)
		vnet.Datagrams = nil
		udpsender.GetInstance().AddPack(textPack(0, "probe"))
		vsched.Sleep(500 * ms)
		x.Check(len(collect(to).texts) == 1, "a pack does not reach %s", to)
	}
	pkgs := Config{Pkgs: []string{"scouterx/netio/udpsender", "scouterx/netio/udpclient"}}
	register(&Property{ID: "C23",
		Bounds:      "all batches of up to 5 (thorough: 6) packs of 7 critical sizes with 3 limits; 2-4 concurrent producers using every way of sending, 3 preemptions (thorough: 4); queues of 1-3 entries, 3 preemptions; the collector's address, port and datagram limit changed while packs are sent, 2 preemptions; the collector's address unusable for a time, in 3 ways",
		Assumptions: []string{"the socket accepts writes, unless stated", "packs taken from the queue while there is no usable socket are lost"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "batches", Split: 3, Body: func(x *X) {
				max := []int{24, 60, 1000}[vsched.Choose(3, "limit")]
				k := 5
				if x.Deep() {
					k = 6
				}
				sz := []int{1, max / 2, max/2 + 1, max - 8, max - 1, max, 2*max + 1}
				s := start(fmt.Sprintf("udp_max_bytes=%d\n", max))
				var texts []string
				for i := 0; i < k; i++ {
					c := vsched.Choose(len(sz)+1, "size")
					if c == len(sz) {
						break
					}
					texts = append(texts, textOfSize(sz[c]))
				}
				for i, t := range texts {
					x.Check(s.AddPack(textPack(i, t)), "pack refused")
				}
				settle()
				sent(x, fmt.Sprintf("limit %d, %d packs queued", max, len(texts)), texts, max, false)
				ordered(x, fmt.Sprintf("limit %d, %d packs queued", max, len(texts)), upTo(len(texts))...)
				x.Case()
			}},
			{Name: "producers", Cfg: pkgs, MaxCost: 3, Deep: 4, Body: func(x *X) {
				set := vsched.Choose(3, "producers")
				s := start("udp_max_bytes=60\n")
				texts := []string{rep(3), rep(30), rep(200), rep(20), rep(59), rep(4), rep(1), rep(90)}
				add := func(is ...int) func() {
					return func() {
						for _, i := range is {
							x.Check(s.AddPack(textPack(i, texts[i])), "pack refused")
						}
					}
				}
				buf := func(is ...int) func() {
					return func() {
						for _, i := range is {
							s.AddBuffer(packBytes(textPack(i, texts[i])))
						}
					}
				}
				direct := func(is ...int) func() {
					return func() {
						for _, i := range is {
							s.SendPackDirect(textPack(i, texts[i]))
						}
					}
				}
				lst := func(is ...int) func() {
					return func() {
						l := list.New()
						for _, i := range is {
							l.PushBack(packBytes(textPack(i, texts[i])))
						}
						s.SendDirect(l)
					}
				}
				vsched.Explore(true)
				switch set {
				case 0:
					add(0, 1)()
					vsched.Sleep(100 * ms) // the sender wakes up
					par(add(2, 3, 4), buf(5, 6, 7))
				case 1:
					par(add(0, 1, 2), direct(3, 4), lst(5, 6, 7))
				case 2:
					add(0, 1, 2)()
					par(func() { vsched.Sleep(100 * ms) }, lst(3, 4), lst(5, 6, 7))
				}
				settle()
				sent(x, "concurrent producers", texts, 60, false)
				for _, l := range [][][]int{{{0, 1, 2, 3, 4}, {0, 1, 5, 6, 7}}, {{0, 1, 2}, {5, 6, 7}}, {{0, 1, 2}, {3, 4}, {5, 6, 7}}}[set] {
					ordered(x, "concurrent producers", l...)
				}
				x.Check(vnet.WriteErrs == 0, "%d writes to a closed socket", vnet.WriteErrs)
				x.Observe("%d %d", set, len(vnet.Datagrams))
				oneSocket(x, "127.0.0.1:6100")
			}},
			{Name: "full queue", Cfg: pkgs, MaxCost: 3, Deep: 4, Body: func(x *X) {
				size := 1 + vsched.Choose(3, "queue size")
				s := start(fmt.Sprintf("send_queue_size=%d\nudp_max_bytes=60\n", size))
				texts := make([]string, 8)
				ok := make([]bool, 8)
				for i := range texts {
					texts[i] = rep(10 * i)
				}
				vsched.Explore(true)
				add := func(is ...int) func() {
					return func() {
						for _, i := range is {
							ok[i] = s.AddPack(textPack(i, texts[i]))
						}
					}
				}
				first := 3
				if vsched.Choose(2, "nearly full") == 1 {
					first = size - 1
				}
				for i := 0; i < first; i++ {
					add(i)()
				}
				t := vsched.Now()
				var took int64
				par(func() { add(3, 4)(); took = vsched.Now() - t }, func() { vsched.Sleep(100 * ms); add(6, 7)() }, func() { add(5)() })
				x.Check(took == 0, "queue of %d: handing over a pack waits for %d ms", size, took/ms)
				settle()
				for i := first; i < 3; i++ {
					add(i)()
				}
				settle()
				c := received(x)
				n := 0
				for i := range ok {
					got := 0
					for _, t := range c.texts {
						if t.Hash == int32(i) && t.Text == texts[i] {
							got++
						}
					}
					x.Check(ok[i] && got == 1 || !ok[i] && got == 0, "queue of %d: pack %d accepted: %v, arrived %d times", size, i, ok[i], got)
					if ok[i] {
						n++
					}
				}
				x.Check(n >= size, "queue of %d: only %d packs accepted", size, n)
				for i := 0; i < size && i < first; i++ {
					x.Check(ok[i], "queue of %d: pack %d is refused although there is room", size, i)
				}
				if first == 3 {
					ordered(x, "full queue", 0, 1, 2, 3, 4)
					ordered(x, "full queue", 0, 1, 2, 6, 7)
				}
				x.Observe("%v", ok)
				vnet.Datagrams = nil
				for i := 0; i < size; i++ {
					x.Check(s.AddPack(textPack(i, texts[i])), "the queue of %d stays full", size)
				}
				settle()
				sent(x, "after an overflow", texts[:size], 60, false)
			}},
			{Name: "address change", Cfg: pkgs, MaxCost: 2, Deep: 3, Body: func(x *X) {
				kind := vsched.Choose(3, "change")
				s := start("net_collector_ip=10.0.0.1\nudp_max_bytes=60\n")
				texts := []string{rep(3), rep(30), rep(200), rep(20), rep(59), rep(4), rep(1), rep(90)}
				// the reload task looks every second: be just before
				t := 1000*ms - vsched.Now()%(1000*ms)
				vsched.Sleep(t - 10*ms)
				ac := conf.GetInstance()
				vsched.Explore(true)
				var to string
				switch kind {
				case 0:
					ac.NetCollectorIP, to = "10.0.0.2", "10.0.0.2:6100"
				case 1:
					ac.NetCollectorUDPPort, to = 7000, "10.0.0.1:7000"
				case 2:
					ac.UDPMaxBytes, to = 100, "10.0.0.1:6100"
				}
				par(func() {
					vsched.Sleep(10 * ms)
					for i := 0; i < 4; i++ {
						x.Check(s.AddPack(textPack(i, texts[i])), "pack refused")
					}
				}, func() {
					vsched.Sleep(10 * ms)
					for i := 4; i < 8; i++ {
						s.SendPackDirect(textPack(i, texts[i]))
					}
				})
				settle()
				x.Check(vnet.WriteErrs == 0, "%d writes to a closed socket", vnet.WriteErrs)
				sent(x, "while the settings change", texts, 100, false)
				ordered(x, "while the settings change", 0, 1, 2, 3)
				n := 0
				for _, d := range vnet.Datagrams {
					if d.To == to {
						n++
					}
				}
				x.Observe("%d %d", kind, n)
				oneSocket(x, to)
			}},
			{Name: "unusable address", Split: 2, Body: func(x *X) {
				// at the start, or after a change, or both; healing or another change ends it
				when := vsched.Choose(2, "when")
				how := vsched.Choose(3, "how")
				end := vsched.Choose(2, "end")
				wait := int64([]int{100, 900, 1000, 1100, 5000}[vsched.Choose(5, "after")])
				addr := "10.0.0.1"
				bad := func() {
					switch how {
					case 0:
						vnet.UDPFail["resolve:*"] = true
					case 1:
						vnet.UDPFail["dial:*"] = true
					case 2:
						addr = "no.such.host"
					}
				}
				if when == 0 {
					bad()
				}
				s := start("net_collector_ip=" + addr + "\n")
				ac := conf.GetInstance()
				use := func(what string) {
					for i := 0; i < 3; i++ {
						x.Check(s.AddPack(textPack(i, rep(i))), "%s: pack refused", what)
						s.SendPackDirect(textPack(i, rep(i)))
					}
					l := list.New()
					l.PushBack(packBytes(textPack(0, "")))
					s.SendDirect(l)
				}
				if when == 1 {
					use("before")
					vsched.Sleep(500 * ms)
					x.Check(len(received(x).texts) == 7, "%d of 7 packs arrived", len(received(x).texts))
					bad()
					if how != 2 {
						addr = "10.0.0.3"
					}
					ac.NetCollectorIP = addr
				}
				vsched.Sleep(wait * ms)
				use("without an address")
				vsched.Sleep(wait * ms)
				use("without an address")
				if end == 0 && how != 2 {
					vnet.UDPFail = map[string]bool{}
				} else {
					vnet.UDPFail = map[string]bool{}
					addr = "10.0.0.2"
					ac.NetCollectorIP = addr
				}
				vsched.Sleep(2100 * ms)
				oneSocket(x, addr+":6100")
				x.Check(vnet.WriteErrs == 0, "%d writes to a closed socket", vnet.WriteErrs)
				vnet.Datagrams = nil
				use("afterwards")
				vsched.Sleep(500 * ms)
				c := received(x)
				x.Check(len(c.texts) == 7 && len(collect(addr+":6100").texts) == 7, "%d of 7 packs arrived after the address became usable", len(c.texts))
				x.Case()
			}},
			{Name: "changes", Split: 2, Body: func(x *X) {
				// every sequence of 4 settings
				n := 4
				if x.Deep() {
					n = 5
				}
				start("net_collector_ip=10.0.0.1\n")
				ac := conf.GetInstance()
				s := udpsender.GetInstance()
				for i := 0; i < n; i++ {
					ac.NetCollectorIP = []string{"10.0.0.1", "10.0.0.2"}[vsched.Choose(2, "ip")]
					ac.NetCollectorUDPPort = []int{6100, 6200}[vsched.Choose(2, "port")]
					ac.UDPMaxBytes = []int{60000, 50}[vsched.Choose(2, "limit")]
					to := fmt.Sprintf("%s:%d", ac.NetCollectorIP, ac.NetCollectorUDPPort)
					vsched.Sleep(1001 * ms)
					vsched.Settle()
					vnet.Datagrams = nil
					texts := []string{rep(40), rep(300), rep(1)}
					for j, t := range texts {
						s.AddPack(textPack(j, t))
					}
					vsched.Sleep(300 * ms)
					sent(x, "after "+strings.Repeat("change ", i+1), texts, ac.UDPMaxBytes, false)
					for _, d := range vnet.Datagrams {
						x.Check(d.To == to, "change %d: a datagram went to %s, not %s", i, d.To, to)
					}
					x.Check(vnet.OpenUDP == 1, "change %d: %d sockets are open", i, vnet.OpenUDP)
				}
				x.Check(vnet.WriteErrs == 0, "%d writes to a closed socket", vnet.WriteErrs)
				x.Case()
			}},
		}})
}
