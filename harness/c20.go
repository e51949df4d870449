package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vos"
	"vshim/vpprof"
	"vshim/vruntime"
	"vshim/vsched"
)

// snapshot is the content of all files but the agent's log.
func snapshot() map[string]string {
	m := map[string]string{}
	for _, f := range vos.Files() {
		if strings.HasPrefix(f, "/app/scouter/logs") {
			continue
		}
		c, _ := vos.Get(f)
		m[f] = c
	}
	return m
}

func changes(a, b map[string]string) (l []string) {
	for f, c := range a {
		if d, ok := b[f]; !ok {
			l = append(l, "removed "+f)
		} else if c != d {
			l = append(l, "changed "+f)
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			l = append(l, "created "+f)
		}
	}
	sort.Strings(l)
	return
}

// leftOpen counts the open files other than the agent's log.
func leftOpen() (n int) {
	for f := range vos.Opened {
		if !strings.Contains(f.Name(), "/logs/") {
			n++
		}
	}
	return
}

// connected starts an agent and returns its connection.
func connected(x *X, cfg string) *conn {
	boot(cfg, "scouterx/strace")
	c := listen(x)
	strace.StartTracingMode()
	k := c.connect(0, objHash0)
	vsched.Sleep(1000 * ms)
	return k
}

func nameParam(key, name string) map[string]interface{} { return map[string]interface{}{key: name} }

// listed returns name -> "size" or "size@mtime".
func listed(x *X, a wMap, times bool) map[string]string {
	names := strList(x, a, "name")
	sizes, ok := a["size"].([]interface{})
	x.Check(ok && len(sizes) == len(names), "%d names, %d sizes", len(names), len(sizes))
	var mod []interface{}
	if times {
		mod, ok = a["last_modified"].([]interface{})
		x.Check(ok && len(mod) == len(names), "%d names, %d times", len(names), len(mod))
	}
	m := map[string]string{}
	for i, n := range names {
		_, dup := m[n]
		x.Check(!dup, "%s is listed twice", n)
		m[n] = fmt.Sprint(sizes[i])
		if times {
			m[n] += fmt.Sprint("@", mod[i])
		}
	}
	return m
}

// direct calls of the file functions, for the concurrent scenarios
func downloadOf(name string) string {
	out := netdata.NewDataOutputX(nil)
	dump.DownloadBinaryDumpFiles(out, name)
	return partsOf(out)
}

func streamOf(name string) string {
	out := netdata.NewDataOutputX(nil)
	p := netdata.NewMapPack()
	p.Put("name", name)
	dump.StreamDumpFileContents(p, out)
	return partsOf(out)
}

func partsOf(out *netdata.DataOutputX) string {
	r := &rd{b: out.Bytes()}
	var s []byte
	for r.left() > 0 && r.err == nil {
		if r.u8() != 3 {
			r.fail("flag")
		}
		s = append(s, r.blob()...)
	}
	if r.err != nil {
		return "malformed: " + r.err.Error()
	}
	return string(s)
}

func init() {
	sizes := []int{0, 1, 2, 252, 253, 254, 255, 256, 299, 300, 301, 599, 600, 601, 899, 900, 901, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 300000}
	register(&Property{ID: "C20",
		Bounds:      "all subsets of 7 folder entries; contents of all sizes to 1300 (thorough: 5000) and 28 sizes up to 300000; all names of up to 6 (thorough: 7) tokens over { .. . / \\ a.pprof sub conf }, for reading, downloading and deleting; up to 2 (thorough: 3) failing file operations and up to 3 (thorough: 4) short reads; 36 file sizes with 44 times; files that vanish while they are listed; listing, reading and deleting concurrently, interleaved at every file operation",
		Assumptions: []string{"the dump folders hold no symbolic links"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "listing", Body: func(x *X) {
				entries := []string{"a.log", "b.pprof", "c-pprof", "한글.log", "go_cpu_1.pprof", "pprof.txt", "dir.pprof/"}
				mask := vsched.Choose(1<<len(entries), "entries")
				wd, wb := map[string]string{}, map[string]string{}
				for i, e := range entries {
					if mask>>uint(i)&1 == 0 {
						continue
					}
					vsched.Sleep(1000 * ms)
					size := i*100 + 7
					if i == 2 {
						size = 0
					}
					for _, d := range []string{dumpDir, binDir} {
						if strings.HasSuffix(e, "/") {
							vos.PutDir(d + "/" + e[:len(e)-1])
							continue
						}
						vos.Put(d+"/"+e, rep(size))
					}
					if !strings.HasSuffix(e, "/") {
						wd[e] = fmt.Sprint(size, "@", (vsched.Epoch.UnixNano()+vsched.Now())/ms)
						if strings.HasSuffix(e, "pprof") {
							wb[e] = fmt.Sprint(size)
						}
					}
				}
				k := connected(x, "")
				before := snapshot()
				d := listed(x, k.ask("OBJECT_DUMP_FILE_LIST", nil), true)
				b := listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false)
				x.Check(fmt.Sprint(d) == fmt.Sprint(wd), "dump files listed as %v, there are %v", d, wd)
				x.Check(fmt.Sprint(b) == fmt.Sprint(wb), "binary dumps listed as %v, there are %v", b, wb)
				for n := range wd {
					c, _ := vos.Get(dumpDir + "/" + n)
					x.Check(blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", n))) == c, "listed file %s is not sent", n)
				}
				for n := range wb {
					c, _ := vos.Get(binDir + "/" + n)
					x.Check(blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", n))) == c, "listed dump %s is not sent", n)
				}
				x.Check(len(changes(before, snapshot())) == 0, "listing and reading: %v", changes(before, snapshot()))
				// now remove them one by one
				for _, n := range []string{"b.pprof", "c-pprof", "go_cpu_1.pprof", "pprof.txt", "b.pprof"} {
					_, there := wb[n]
					a := k.ask("OBJECT_DELETE_HEAP_DUMP", nameParam("delfileName", n))
					x.Check(a["success"] == there, "deleting %s (exists: %v) answered %v", n, there, a)
					_, msg := a["msg"].(string)
					x.Check(msg, "deleting %s: no message", n)
					if there {
						delete(wb, n)
						delete(before, binDir+"/"+n)
					}
					b := listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false)
					x.Check(fmt.Sprint(b) == fmt.Sprint(wb), "after deleting %s: listed %v, expected %v", n, b, wb)
				}
				x.Check(len(changes(before, snapshot())) == 0, "deleting: %v", changes(before, snapshot()))
				k.quiet("listing")
				x.Case()
			}},
			{Name: "attributes", Cfg: Config{HorizonNs: 1 << 62}, Body: func(x *X) {
				var ns, ts []int64
				for _, b := range []int64{0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 23, 1 << 31, 1 << 32, 1 << 39, 1 << 40, 1 << 48, 1 << 62} {
					ns = append(ns, b+3, b+4, b+5)
				}
				for _, t := range []int64{-86400000, -1000, 0, 1000, 1 << 31, 1 << 32, 1614834367000, 1000 << 31, 4102444800000, 1000 << 32, 8000000000000} {
					ts = append(ts, t-1, t, t+1, t+999)
				}
				size, mtime := ns[vsched.Choose(len(ns), "size")], ts[vsched.Choose(len(ts), "time")]
				k := connected(x, "")
				for _, d := range []string{dumpDir, binDir} {
					for _, f := range []string{"/a.pprof", "/z.pprof"} {
						vos.Put(d+f, "abc")
					}
					vos.SetHole(d+"/z.pprof", size-3)
					vos.SetMtime(d+"/z.pprof", mtime*ms-vsched.Epoch.UnixNano())
				}
				a := listed(x, k.ask("OBJECT_DUMP_FILE_LIST", nil), true)
				x.Check(a["z.pprof"] == fmt.Sprint(size, "@", mtime) && len(a) == 2, "a file of %d bytes, modified at %d, is listed as %v", size, mtime, a)
				b := listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false)
				x.Check(b["z.pprof"] == fmt.Sprint(size) && len(b) == 2, "a dump of %d bytes is listed as %v", size, b)
				x.Case()
			}},
			{Name: "sizes", Body: func(x *X) {
				lim := 1300
				if x.Deep() {
					lim = 5000
				}
				i := vsched.Choose(lim/50+len(sizes), "size")
				var ns []int
				if i < len(sizes) {
					ns = []int{sizes[i]}
				} else {
					for n := 0; n < 50; n++ {
						ns = append(ns, (i-len(sizes))*50+n)
					}
				}
				k := connected(x, "")
				for _, n := range ns {
					vos.Put(dumpDir+"/f.log", rep(n))
					vos.Put(binDir+"/f.pprof", rep(n))
					a := blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "f.log")))
					b := blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "f.pprof")))
					x.Check(a == rep(n), "a dump file of %d bytes is sent as %d bytes, different from byte %d", n, len(a), firstDiff(a, rep(n)))
					x.Check(b == rep(n), "a binary dump of %d bytes is sent as %d bytes, different from byte %d", n, len(b), firstDiff(b, rep(n)))
					x.Case()
				}
				k.quiet("sizes")
				x.Check(leftOpen() == 0, "%d files left open", leftOpen())
			}},
			{Name: "names", Split: 2, Body: func(x *X) {
				toks := []string{"..", "/", "a.pprof", "sub", "conf", ".", "\\"}
				n := 6
				if x.Deep() {
					n = 7
				}
				op := vsched.Choose(3, "operation")
				first := vsched.Choose(len(toks)+1, "first")
				second := vsched.Choose(len(toks)+1, "second")
				for _, d := range []string{dumpDir, binDir, "/app/scouter", "/app/scouter/conf", "/app", "/", dumpDir + "/sub", binDir + "/sub", dumpDir + "/conf"} {
					vos.Put(path.Join(d, "a.pprof"), "content of "+path.Join(d, "a.pprof"))
					vos.Put(path.Join(d, "a.pprofa.pprof"), "content of "+path.Join(d, "a.pprofa.pprof"))
				}
				vos.Put(dumpDir+"/conf.pprof", "conf")
				k := connected(x, "obj_type=secret\n")
				before := snapshot()
				dir := binDir
				if op == 0 {
					dir = dumpDir
				}
				try := func(name string) {
					target := path.Join(dir, name)
					inside := strings.HasPrefix(target, dir+"/")
					want := ""
					if inside {
						want = before[target]
					}
					plain := inside && target == dir+"/"+name && !strings.Contains(name, "/")
					if op < 2 {
						var got string
						if op == 0 {
							got = blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", name)))
						} else {
							got = blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", name)))
						}
						x.Check(got == "" || inside && got == want, "name %q: sent %q", name, got)
						if _, file := before[target]; plain && file && strings.HasSuffix(name, "pprof") {
							x.Check(got == want, "file %q is not sent", name)
						}
					} else {
						a := k.ask("OBJECT_DELETE_HEAP_DUMP", nameParam("delfileName", name))
						ch := changes(before, snapshot())
						if a["success"] == true {
							x.Check(len(ch) == 1 && inside && ch[0] == "removed "+target, "deleting %q: %v", name, ch)
							vos.Put(target, before[target])
						} else {
							x.Check(len(ch) == 0, "deleting %q failed (%v), but: %v", name, a, ch)
							_, file := before[target]
							x.Check(!(plain && file && strings.HasSuffix(name, "pprof")), "%q cannot be deleted: %v", name, a)
						}
					}
					x.Case()
				}
				var rec func(s string, d int)
				rec = func(s string, d int) {
					try(s)
					if d == n {
						return
					}
					for _, t := range toks {
						rec(s+t, d+1)
					}
				}
				switch {
				case first == len(toks):
					if second == 0 {
						try("")
					}
				case second == len(toks):
					try(toks[first])
				default:
					rec(toks[first]+toks[second], 2)
				}
				x.Check(len(changes(before, snapshot())) == 0, "%v", changes(before, snapshot()))
				k.quiet("names")
			}},
			{Name: "faults", One: true, MaxCost: 2, Deep: 3, Body: func(x *X) {
				op := vsched.Choose(5, "operation")
				d, b := rep(5000), rep(1000)
				vos.Put(dumpDir+"/a.log", d)
				vos.Put(dumpDir+"/z.log", "z")
				vos.Put(binDir+"/a.pprof", b)
				vos.Put(binDir+"/z.pprof", "z")
				k := connected(x, "")
				vos.FaultOps = map[string]bool{"open": true, "read": true, "readdir": true, "stat": true, "remove": true, "mkdir": true}
				vsched.Explore(true)
				subset := func(got map[string]string, want map[string]string) {
					for n, s := range got {
						x.Check(want[n] == s, "a file operation fails: %s is listed with size %s", n, s)
					}
				}
				var res string
				switch op {
				case 0:
					res = fmt.Sprint(len(listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false)))
				case 1:
					subset(listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false), map[string]string{"a.pprof": "1000", "z.pprof": "1"})
					k.ask("OBJECT_DUMP_FILE_LIST", nil)
				case 2:
					s := blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "a.log")))
					x.Check(strings.HasPrefix(d, s), "a file operation fails: %d other bytes are sent", len(s))
					res = fmt.Sprint(len(s))
				case 3:
					s := blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "a.pprof")))
					x.Check(strings.HasPrefix(b, s), "a file operation fails: %d other bytes are sent", len(s))
					res = fmt.Sprint(len(s))
				case 4:
					a := k.ask("OBJECT_DELETE_HEAP_DUMP", nameParam("delfileName", "a.pprof"))
					_, there := vos.Get(binDir + "/a.pprof")
					x.Check(a["success"] == !there, "deleting answered %v, file exists: %v", a, there)
					vos.Put(binDir+"/a.pprof", b)
					res = fmt.Sprint(there)
				}
				vsched.Explore(false)
				vos.FaultOps = nil
				x.Observe("%d %s", op, res)
				x.Check(blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "a.log"))) == d, "files cannot be read after a failure")
				x.Check(blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "a.pprof"))) == b, "dumps cannot be read after a failure")
				x.Check(len(listed(x, k.ask("OBJECT_LIST_HEAP_DUMP", nil), false)) == 2, "dumps cannot be listed after a failure")
				x.Check(leftOpen() == 0, "%d files left open", leftOpen())
				k.quiet("faults")
			}},
			{Name: "short reads", One: true, MaxCost: 3, Deep: 4, Body: func(x *X) {
				n := []int{1, 300, 301, 600, 4096, 9000}[vsched.Choose(6, "size")]
				vos.Put(dumpDir+"/a.log", rep(n))
				vos.Put(binDir+"/a.pprof", rep(n))
				k := connected(x, "")
				vos.ShortReads = true
				vsched.Explore(true)
				a := blobs(k.stream("OBJECT_DUMP_FILE_DETAIL", nameParam("name", "a.log")))
				b := blobs(k.stream("OBJECT_DOWNLOAD_HEAP_DUMP", nameParam("fileName", "a.pprof")))
				vsched.Explore(false)
				x.Check(a == rep(n) && b == rep(n), "%d bytes are sent as %d and %d bytes", n, len(a), len(b))
				x.Observe("x")
			}},
			{Name: "removed while listed", Cfg: Config{Pkgs: []string{"scouterx/dump"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				for _, n := range []string{"a", "b", "c"} {
					vos.Put(dumpDir+"/"+n+".log", rep(400))
				}
				boot("", "scouterx/strace")
				vsched.Explore(true)
				par(func() { vsched.Point("before the file is removed"); vos.Del(dumpDir + "/b.log") }, func() {
					l := listed(x, mapOf(x, dump.ListDumpFiles()), true)
					n := len(l)
					delete(l, "b.log")
					x.Check(len(l) == 2 && strings.HasPrefix(l["a.log"], "400@") && strings.HasPrefix(l["c.log"], "400@"), "listing while a file is removed: %v", l)
					x.Observe("%d", n)
				})
				vsched.Explore(false)
			}},
			{Name: "concurrent", Recent: 2, Cfg: Config{Pkgs: []string{"scouterx/dump", "scouterx/common/netdata"}}, MaxCost: 3, Deep: 4, Body: func(x *X) {
				for _, n := range []string{"a", "b", "c"} {
					vos.Put(dumpDir+"/"+n+".log", rep(400))
					vos.Put(binDir+"/"+n+".pprof", rep(400))
				}
				boot("", "scouterx/strace")
				op := vsched.Choose(3, "operation")
				vsched.Explore(true)
				del := func() {
					m := mapOf(x, dump.DeleteBinaryDumpFiles("b.pprof"))
					x.Check(m["success"] == true, "deleting answered %v", m)
				}
				switch op {
				case 0:
					par(del, func() {
						l := listed(x, mapOf(x, dump.ListBinaryDumpFiles()), false)
						delete(l, "b.pprof")
						x.Check(len(l) == 2 && l["a.pprof"] == "400" && l["c.pprof"] == "400", "listing while a file is deleted: %v", l)
						x.Observe("%d", len(l))
					})
				case 1:
					par(del, func() {
						s := downloadOf("b.pprof")
						x.Check(s == "" || s == rep(400), "download while the file is deleted: %d bytes", len(s))
						x.Observe("%d", len(s))
					})
				case 2:
					vpprof.Content = map[string][]byte{"goroutine": []byte(rep(9000))}
					vpprof.ChunkWrites = 1000
					par(func() { dump.HeavyAllStackTrace() }, func() {
						l := listed(x, mapOf(x, dump.ListDumpFiles()), false)
						x.Check(l["a.log"] == "400" && l["b.log"] == "400" && l["c.log"] == "400", "listing while a dump is written: %v", l)
						s := streamOf("go_dump_" + stampOf(vsched.Now()) + ".log")
						x.Check(strings.HasPrefix(rep(9000), s), "reading a dump while it is written: %d bytes that are not its beginning", len(s))
						x.Observe("%d %d", len(l), len(s))
					})
				}
				vsched.Explore(false)
			}},
		}})

	// C21: triggers
	type trig struct {
		cmd    string
		prefix string
		dir    string
		ext    string
		kind   string
	}
	trigs := []trig{
		{"TRIGGER_THREAD_DUMP", "go_dump_", dumpDir, ".log", "goroutine"},
		{"OBJECT_CALL_CPU_PROFILE", "go_cpu_", binDir, ".pprof", "cpu"},
		{"TRIGGER_BLOCK_PROFILE", "go_block_", dumpDir, ".log", "block"},
		{"OBJECT_CALL_BLOCK_PROFILE", "go_block_", binDir, ".pprof", "block"},
		{"TRIGGER_MUTEX_PROFILE", "go_mutex_", dumpDir, ".log", "mutex"},
		{"OBJECT_CALL_MUTEX_PROFILE", "go_mutex_", binDir, ".pprof", "mutex"},
	}
	const window = 30000 // ms
	type run struct {
		t      trig
		at     int64
		failed bool
	}
	content := map[string]string{"goroutine": rep(10000), "block": rep(5000), "mutex": "mutex profile", "cpu": rep(4097)}
	prepare := func(x *X, host int) *conn {
		k := connected(x, "")
		vruntime.MutexFraction = host
		vpprof.Content = map[string][]byte{}
		for n, c := range content {
			vpprof.Content[n] = []byte(c)
		}
		vpprof.CPUContent = []byte(content["cpu"])
		vpprof.ChunkWrites = 700
		return k
	}
	// rates checks the profiling settings against the windows that are open.
	rates := func(x *X, what string, runs []run, host int) {
		now := vsched.Now()
		open := map[string]int{}
		for _, r := range runs {
			if r.t.kind != "goroutine" && now < r.at+window*ms {
				open[r.t.kind]++
			}
		}
		if open["block"] > 0 {
			x.Check(vruntime.BlockRate == 1000000, "%s: block rate %d while a block profile is taken", what, vruntime.BlockRate)
		} else {
			x.Check(vruntime.BlockRate <= 0, "%s: block rate %d although no block profile is taken", what, vruntime.BlockRate)
		}
		if open["mutex"] > 0 {
			x.Check(vruntime.MutexFraction == 5 || vruntime.MutexFraction == 10, "%s: mutex fraction %d while a mutex profile is taken", what, vruntime.MutexFraction)
		} else {
			x.Check(vruntime.MutexFraction == host, "%s: mutex fraction %d although no mutex profile is taken, the host's was %d", what, vruntime.MutexFraction, host)
		}
	}
	// taken checks when and how the profiles of runs that were not refused have been written.
	taken := func(x *X, what string, runs []run) {
		var want, got []string
		for _, r := range runs {
			if r.failed {
				continue
			}
			at := r.at / ms / 1000
			if r.t.kind != "goroutine" {
				at += window / 1000
			}
			want = append(want, fmt.Sprint(r.t.kind, " text:", r.t.ext == ".log", " after ", at, " s"))
		}
		for _, w := range vpprof.Writes {
			got = append(got, fmt.Sprint(w.Name, " text:", w.Debug > 0, " after ", w.At/ms/1000, " s"))
		}
		sort.Strings(want)
		sort.Strings(got)
		x.Check(fmt.Sprint(want) == fmt.Sprint(got), "%s: profiles were taken as %v, expected %v", what, got, want)
	}
	register(&Property{ID: "C21",
		Bounds:      "every sequence of 4 (thorough: 5) of 6 triggers, immediately or after 1, 16 or 31 seconds, with and without a mutex profile rate of the host; every single failing file operation of each trigger; two windows of one kind interleaved at every operation; 9 dump sizes written in 3 ways; 27 times of the day on 9 dates",
		Assumptions: []string{"dumps of one kind that start in the same second share one file", "only one CPU profile can be taken at a time; a second one is refused by the runtime"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "sequences", Split: 2, Body: func(x *X) {
				n := 4
				if x.Deep() {
					n = 5
				}
				host := vsched.Choose(2, "host profiles mutexes") * 7
				k := prepare(x, host)
				before := snapshot()
				var runs []run
				what := ""
				for i := 0; i < n; i++ {
					t := trigs[vsched.Choose(len(trigs), "trigger")]
					wait := int64([]int{0, 1000, 16000, 31000}[vsched.Choose(4, "wait")])
					if i == 0 && wait != 0 {
						return // nothing runs yet
					}
					vsched.Sleep(wait * ms)
					what += fmt.Sprintf(" +%ds %s", wait/1000, t.cmd)
					t0 := vsched.Now()
					l := k.asks(t.cmd, nil)
					x.Check(vsched.Now()-t0 < 1000*ms, "%s: answer took %d ms", what, (vsched.Now()-t0)/ms)
					if t.kind == "goroutine" {
						m, ok := l[0].(wMap)
						s, _ := m["name"].(string)
						x.Check(ok && strings.HasSuffix(s, t.prefix+stampOf(t0)+t.ext), "%s: answered %v", what, l)
					} else if len(l) > 0 {
						m, ok := l[0].(wMap)
						x.Check(ok && m["success"] == true, "%s: answered %v", what, l)
					}
					runs = append(runs, run{t: t, at: t0})
					vsched.Settle()
					rates(x, what, runs, host)
				}
				for i := 0; i < 31; i++ {
					vsched.Sleep(1000 * ms)
					vsched.Settle()
					rates(x, what, runs, host)
				}
				x.Check(!vpprof.CPUActive, "%s: CPU profile still running", what)
				want := map[string]string{}
				for f, c := range before {
					want[f] = c
				}
				maybe := map[string]bool{}
				var cpuEnd int64 = -1
				for i, r := range runs {
					f := r.t.dir + "/" + r.t.prefix + stampOf(r.at) + r.t.ext
					if r.t.kind == "cpu" {
						if r.at < cpuEnd {
							runs[i].failed = true
							if _, ok := want[f]; !ok {
								want[f] = ""
								maybe[f] = true
							} else {
								// refused, but it emptied the file of the profile that runs: the file is written when that ends
								maybe[f] = maybe[f]
							}
							continue
						}
						cpuEnd = r.at + window*ms
					}
					want[f] = content[r.t.kind]
				}
				taken(x, what, runs)
				got := snapshot()
				for f := range maybe {
					if _, ok := got[f]; !ok {
						delete(want, f)
					}
				}
				x.Check(len(changes(want, got)) == 0, "%s: files are not as expected: %v", what, changes(want, got))
				x.Check(leftOpen() == 0, "%s: %d files left open", what, leftOpen())
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "sizes", Body: func(x *X) {
				n := []int{0, 1, 4095, 4096, 4097, 8192, 8193, 100000, 1000000}[vsched.Choose(9, "size")]
				k := prepare(x, 0)
				for n2 := range vpprof.Content {
					vpprof.Content[n2] = []byte(rep(n))
				}
				vpprof.CPUContent = []byte(rep(n))
				vpprof.ChunkWrites = []int{0, 1000, 4096}[vsched.Choose(3, "writes")]
				t0 := vsched.Now()
				for _, t := range trigs {
					k.asks(t.cmd, nil)
				}
				vsched.Sleep(31000 * ms)
				vsched.Settle()
				for _, t := range trigs {
					f := t.dir + "/" + t.prefix + stampOf(t0) + t.ext
					c, ok := vos.Get(f)
					x.Check(ok && c == rep(n), "a %s dump of %d bytes has %d bytes (exists: %v)", t.kind, n, len(c), ok)
				}
				x.Case()
			}},
			{Name: "faults", One: true, MaxCost: 1, Deep: 2, Body: func(x *X) {
				host := vsched.Choose(2, "host profiles mutexes") * 7
				t := trigs[vsched.Choose(len(trigs), "trigger")]
				k := prepare(x, host)
				before := snapshot()
				vos.FaultOps = map[string]bool{"open": true, "write": true, "mkdir": true, "close": true, "sync": true}
				vsched.Explore(true)
				t0 := vsched.Now()
				l := k.asks(t.cmd, nil)
				vsched.Sleep(31000 * ms)
				vsched.Settle()
				vsched.Explore(false)
				vos.FaultOps = nil
				x.Check(vruntime.BlockRate <= 0 && vruntime.MutexFraction == host && !vpprof.CPUActive, "%s with a failing file operation: block rate %d, mutex fraction %d (host %d), CPU profile %v", t.cmd, vruntime.BlockRate, vruntime.MutexFraction, host, vpprof.CPUActive)
				f := t.dir + "/" + t.prefix + stampOf(t0) + t.ext
				got := snapshot()
				c, there := got[f]
				delete(got, f)
				x.Check(len(changes(before, got)) == 0, "%s with a failing file operation: %v", t.cmd, changes(before, got))
				if t.kind == "goroutine" {
					m, _ := l[0].(wMap)
					x.Check(m["name"] == nil || there, "%s answered %v, there is no such file", t.cmd, m)
				}
				x.Check(leftOpen() == 0, "%s with a failing file operation: %d files left open", t.cmd, leftOpen())
				x.Observe("%s %v %d", t.cmd, there, len(c))
				// and again
				t1 := vsched.Now()
				k.asks(t.cmd, nil)
				vsched.Sleep(31000 * ms)
				vsched.Settle()
				c, _ = vos.Get(t.dir + "/" + t.prefix + stampOf(t1) + t.ext)
				x.Check(c == content[t.kind], "%s after one with a failing file operation: file of %d bytes", t.cmd, len(c))
				rates(x, t.cmd, nil, host)
			}},
			{Name: "clock", Cfg: Config{HorizonNs: 1 << 62}, Body: func(x *X) {
				// names carry the time on a 24 hour clock, at any hour, day and year
				h := vsched.Choose(27, "hour")
				days := []int64{0, 6, 26, 27, 302, 303, 1090, 1091, 3650}[vsched.Choose(9, "days")]
				if h >= 24 {
					vsched.Sleep((days*24*3600 + 18*3600 + 53*60 + 50 + int64(h-24)) * 1000 * ms) // just before and after midnight
				} else {
					vsched.Sleep((days*24 + int64(h)) * 3600000 * ms)
				}
				k := prepare(x, 0)
				var runs []run
				for _, t := range trigs {
					runs = append(runs, run{t: t, at: vsched.Now()})
					k.asks(t.cmd, nil)
				}
				vsched.Sleep(31000 * ms)
				vsched.Settle()
				for _, r := range runs {
					f := r.t.dir + "/" + r.t.prefix + stampOf(r.at) + r.t.ext
					c, ok := vos.Get(f)
					x.Check(ok && c == content[r.t.kind], "%s at %s: file of %d bytes (exists: %v)", r.t.cmd, stampOf(r.at), len(c), ok)
				}
				taken(x, "clock", runs)
				x.Case()
			}},
			{Name: "overlap", Cfg: Config{Pkgs: []string{"scouterx/dump", "scouterx/common/netdata"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				kind := vsched.Choose(3, "kind")
				host := vsched.Choose(2, "host profiles mutexes") * 7
				boot("", "scouterx/strace")
				vruntime.MutexFraction = host
				for n, c := range content {
					vpprof.Content[n] = []byte(c)
				}
				vsched.Explore(true)
				a := func() { dump.ProfileBlock(30, 1000000, 1) }
				b := func() { dump.ProfileBlockBinaryDump(30, 1000000) }
				if kind == 1 {
					a = func() { dump.ProfileMutex(30, 10, 1) }
					b = func() { dump.ProfileMutexBinaryDump(30, 5) }
				}
				if kind == 2 {
					a = func() { dump.ProfileMutex(30, 10, 1) }
				}
				par(a, b)
				vsched.Settle()
				if kind != 1 {
					x.Check(vruntime.BlockRate == 1000000, "block rate %d while a profile is taken", vruntime.BlockRate)
				}
				if kind != 0 {
					x.Check(vruntime.MutexFraction == 5 || vruntime.MutexFraction == 10, "mutex fraction %d while a profile is taken", vruntime.MutexFraction)
				}
				vsched.Sleep(30001 * ms)
				vsched.Settle()
				vsched.Explore(false)
				rates(x, "overlapping windows", nil, host)
				n := 0
				for f, c := range snapshot() {
					for _, t := range trigs {
						if strings.HasPrefix(f, t.dir+"/"+t.prefix) {
							x.Check(c == content[t.kind], "%s has %d bytes", f, len(c))
							n++
						}
					}
				}
				x.Check(n == 2, "%d files for two profiles", n)
				x.Check(leftOpen() == 0, "%d files left open", leftOpen())
				x.Observe("%d", vruntime.MutexFraction)
			}},
			{Name: "no folder", Body: func(x *X) {
				t := trigs[vsched.Choose(len(trigs), "trigger")]
				k := prepare(x, 3)
				vos.Failing["mkdir:*"] = syscall.EROFS
				vos.Failing["open:*"] = syscall.EROFS
				l := k.asks(t.cmd, nil)
				if t.kind == "goroutine" {
					m, _ := l[0].(wMap)
					x.Check(m["name"] == nil, "answered %v on a read only disk", m)
				}
				vsched.Sleep(31000 * ms)
				vsched.Settle()
				rates(x, t.cmd, nil, 3)
				x.Check(len(k.ask("OBJECT_LIST_HEAP_DUMP", nil)) >= 2, "listing on a read only disk")
				x.Case()
			}},
		}})
}

func firstDiff(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
