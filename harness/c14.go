package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vos"
	"vshim/vsched"
)

// checkListing compares the settings the agent lists with those in effect.
func checkListing(x *X, k *conn, what string, set map[string]string) {
	m := k.ask("LIST_CONFIGURE_WAS", nil)
	keys, vals, defs := strList(x, m, "key"), strList(x, m, "value"), strList(x, m, "default")
	x.Check(len(keys) == len(vals) && len(keys) == len(defs), "%s: %d keys, %d values, %d defaults listed", what, len(keys), len(vals), len(defs))
	at := map[string]int{}
	for i, key := range keys {
		_, dup := at[key]
		x.Check(!dup, "%s: %s is listed twice", what, key)
		at[key] = i
	}
	types, descs := k.ask("CONFIGURE_VALUE_TYPE", nil), k.ask("CONFIGURE_DESC", nil)
	var all []string
	for _, s := range settings {
		i, ok := at[s.key]
		x.Check(ok, "%s: %s is not listed", what, s.key)
		t, has := set[s.key]
		want := s.effective(t, has)
		x.Check(vals[i] == want && defs[i] == s.def, "%s: %s is listed as %q default %q, expected %q default %q", what, s.key, vals[i], defs[i], want, s.def)
		vt := map[byte]int64{'b': 3, 'i': 2, 's': 1}[s.kind]
		if strings.HasSuffix(s.key, "_patterns") || strings.HasSuffix(s.key, "_keys") {
			vt = 4
		}
		x.Check(types[s.key] == vt, "%s: %s has value type %v, expected %d", what, s.key, types[s.key], vt)
		_, ok = descs[s.key].(string)
		x.Check(ok, "%s: %s has no description", what, s.key)
		all = append(all, s.key)
	}
	x.Check(len(types) == len(keys) && len(descs) == len(keys), "%s: %d keys, %d types, %d descriptions", what, len(keys), len(types), len(descs))
	got := strList(x, k.ask("GET_CONFIGURE_WAS", nil), "configKey")
	sort.Strings(got)
	sort.Strings(keys)
	x.Check(fmt.Sprint(got) == fmt.Sprint(keys), "%s: configuration text comes with keys %v, listed are %v", what, got, keys)
}

func init() {
	type ct struct {
		text string
		set  map[string]string
	}
	texts := []ct{
		{"udp_max_bytes=1000\nobj_type=t1\n", map[string]string{"udp_max_bytes": "1000", "obj_type": "t1"}},
		{"", nil},
		{"# only a comment", nil},
		{"obj_type=한글\r\nsend_queue_size = 7", map[string]string{"obj_type": "한글", "send_queue_size": "7"}},
		{"xlog_sampling_enabled=true\n\n\n", map[string]string{"xlog_sampling_enabled": "true"}},
	}
	sizes := []int{1, 253, 254, 255, 256, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 99999, 100000}
	const before = "udp_max_bytes=4321\nobj_type=old\n"
	old := map[string]string{"udp_max_bytes": "4321", "obj_type": "old"}
	is := func(set map[string]string) bool { return confDiff(set) == "" }
	register(&Property{ID: "C14",
		Bounds:      "every sequence of 3 (thorough: 4) saves and reads of 5 texts in 4 starting states; texts of 14 sizes up to 100000 bytes in 3 alphabets; every single failing file operation and every crash point, torn write and loss of unsynced content of a save; a save interleaved with the background poll at every file operation and shared access",
		Assumptions: []string{"renaming a file replaces the other atomically", "at most one file operation of a save fails, or the process dies once"},
		QuickSec:    60, DeepSec: 400,
		Scenarios: []Scenario{
			{Name: "save-and-read", Body: func(x *X) {
				n := 3
				if x.Deep() {
					n = 4
				}
				start := vsched.Choose(4, "start")
				cur, set := before, old
				switch start {
				case 0:
					cur, set = "", nil
				case 2:
					vos.Put(confPath+".tmp", "left behind by a crash, longer than any of the texts that are saved")
				case 3:
					vos.PutDir(confPath + ".tmp") // no temporary file can be made
				}
				boot(cur, "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				k := c.connect(0, objHash0)
				x.Check(k.ask("GET_CONFIGURE_WAS", nil)["agentConfig"] == cur, "text read is not the file's")
				what := fmt.Sprintf("start %d", start)
				for i := 0; i < n; i++ {
					vsched.Sleep(1000 * ms)
					t := texts[vsched.Choose(len(texts), "text")]
					what += fmt.Sprintf(" %q", t.text)
					r := k.ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": t.text})
					x.Check(r["result"] == "true", "%s: save answered %v", what, r)
					got, _ := vos.Get(confPath)
					x.Check(got == t.text, "%s: file holds %q", what, got)
					x.Check(k.ask("GET_CONFIGURE_WAS", nil)["agentConfig"] == t.text, "%s: text read back differs", what)
					confState(x, what, t.set)
					set = t.set
				}
				checkListing(x, k, what, set)
				k.quiet(what)
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "sizes", Body: func(x *X) {
				n := sizes[vsched.Choose(len(sizes), "size")]
				al := vsched.Choose(3, "alphabet")
				unit := []string{"#x", "#한", "#\xff\x00"}[al]
				t := strings.Repeat(unit, n/len(unit)+1)[:n]
				boot(before, "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				k := c.connect(0, objHash0)
				vsched.Sleep(1000 * ms)
				x.Check(k.ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": t})["result"] == "true", "%d bytes not saved", n)
				got, _ := vos.Get(confPath)
				x.Check(got == t, "%d bytes saved as %d bytes", n, len(got))
				x.Check(k.ask("GET_CONFIGURE_WAS", nil)["agentConfig"] == t, "%d bytes read back differently", n)
				x.Case()
			}},
			{Name: "failing", One: true, MaxCost: 1, Deep: 1, Body: func(x *X) {
				state := vsched.Choose(3, "file")
				cur, set := before, old
				if state == 0 {
					cur, set = "", nil
				}
				t := texts[vsched.Choose(len(texts), "text")]
				boot(cur, "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				k := c.connect(0, objHash0)
				vsched.Sleep(1000 * ms)
				if state == 2 {
					vos.Put(confPath+".tmp", "left behind")
				}
				vos.FaultOps = map[string]bool{"open": true, "write": true, "sync": true, "rename": true, "mkdir": true, "stat": true, "read": true, "truncate": true}
				vsched.Explore(true)
				r := k.ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": t.text})
				vsched.Explore(false)
				got, _ := vos.Get(confPath)
				switch r["result"] {
				case "true":
					x.Check(got == t.text, "save answered true, file holds %q instead of %q", got, t.text)
				case false, "false":
					x.Check(got == cur, "save answered false, file holds %q instead of %q", got, cur)
					x.Check(is(set), "save answered false, but changed the settings: %s", confDiff(set))
				default:
					x.Failf("save answered %v", r)
				}
				x.Observe("%v %v", r["result"], got == t.text)
				vos.FaultOps = nil
				vsched.Sleep(6000 * ms)
				if got == t.text {
					confState(x, "after a failing save", t.set)
				} else {
					confState(x, "after a failing save", set)
				}
				r = k.ask("SET_CONFIGURE_WAS", map[string]interface{}{"setConfig": "obj_type=later\n"})
				got, _ = vos.Get(confPath)
				x.Check(r["result"] == "true" && got == "obj_type=later\n", "a later save answered %v, file holds %q", r, got)
			}},
			{Name: "crash", One: true, MaxCost: 1, Deep: 1, Allow: func(x *X, o vsched.Outcome, msg string) bool { return o == vsched.Killed }, Body: func(x *X) {
				cur := []string{"", before}[vsched.Choose(2, "file")]
				t := texts[vsched.Choose(len(texts), "text")].text
				vos.PowerLoss = vsched.Choose(2, "power failure") == 1
				boot(cur, "scouterx/conf")
				is(nil)
				vsched.Sleep(1000 * ms)
				vos.CrashOps = map[string]bool{"open": true, "write": true, "sync": true, "rename": true, "remove": true, "truncate": true, "stat": true}
				var saved, done bool
				vos.OnCrash = func() {}
				check := func() {
					got, ok := vos.Get(confPath)
					x.Observe("%v %v", done, got == t)
					if done && saved {
						x.Check(got == t, "a crash after the save leaves %q instead of %q", got, t)
					} else {
						x.Check(got == t || got == cur && (ok || cur == ""), "a crash during the save leaves %q (before %q, saved %q)", got, cur, t)
					}
				}
				vos.OnCrash = check
				vsched.Explore(true)
				saved = conf.SaveConfigText(t)
				done = true
				if vos.PowerLoss {
					vos.CrashNow()
				}
				vsched.Explore(false)
				check()
			}},
			{Name: "save-vs-poll", Recent: 1, Cfg: Config{Pkgs: []string{"scouterx/conf"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				t := texts[vsched.Choose(len(texts), "text")]
				boot(before, "scouterx/conf")
				confState(x, "start", old)
				conf.AddToConfObserver("harness", observer(func() {
					x.Check(is(old) || is(t.set), "settings are neither those before nor after the save: %s", confDiff(t.set))
				}))
				advance(1000 * ms)
				vsched.Explore(true)
				par(func() { x.Check(conf.SaveConfigText(t.text), "not saved"); conf.GetInstance().Refresh() }, func() { conf.GetInstance().Refresh() })
				vsched.Explore(false)
				confState(x, "after the save", t.set)
				x.Observe("x")
			}},
			{Name: "unreadable", Body: func(x *X) {
				boot(before, "scouterx/strace")
				c := listen(x)
				strace.StartTracingMode()
				k := c.connect(0, objHash0)
				op := []string{"open:" + confPath, "read:" + confPath, "stat:" + confPath}[vsched.Choose(3, "operation")]
				vos.Failing[op] = syscall.EIO
				s, _ := k.ask("GET_CONFIGURE_WAS", nil)["agentConfig"].(string)
				x.Check(s == "" || s == before, "unreadable file read as %q", s)
				vsched.Sleep(6000 * ms)
				confState(x, "unreadable file", old)
				checkListing(x, k, "unreadable file", old)
				delete(vos.Failing, op)
				x.Check(k.ask("GET_CONFIGURE_WAS", nil)["agentConfig"] == before, "text lost")
				x.Case()
			}},
		}})
}

type observer func()

func (o observer) Run() { o() }
