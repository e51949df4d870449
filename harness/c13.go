package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"syscall"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vos"
	"vshim/vsched"
)

type setting struct {
	key, field string
	kind       byte // b, i, s
	def        string
}

// effective is the value a setting has when the given text is written for it.
func (s setting) effective(text string, present bool) string {
	if !present || text == "" {
		return s.def
	}
	switch s.kind {
	case 'b':
		switch strings.ToLower(text) {
		case "1", "true", "yes", "on":
			return "true"
		}
		return "false"
	case 'i':
		v, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			return s.def
		}
		return strconv.FormatInt(v, 10)
	}
	return text
}

// confState requires the configuration in effect to be that of the given settings.
func confState(x *X, what string, set map[string]string) {
	d := confDiff(set)
	x.Check(d == "", "%s: %s", what, d)
}

func confDiff(set map[string]string) string {
	c := reflect.ValueOf(conf.GetInstance()).Elem()
	desc := conf.GetConfigureDescMap()
	for _, s := range settings {
		t, ok := set[s.key]
		want := s.effective(t, ok)
		if f := c.FieldByName(s.field); f.IsValid() {
			if got := fmt.Sprint(f.Interface()); got != want {
				return fmt.Sprintf("%s is %q in effect, expected %q", s.key, got, want)
			}
		}
		v, ok := desc.Get(s.key)
		if !ok {
			return fmt.Sprintf("%s is not listed", s.key)
		}
		cd, ok := v.(conf.ConfigureDesc)
		if ok && (cd.Key != s.key || cd.Value != want || cd.DefaultValue != s.def) {
			return fmt.Sprintf("%s is listed as %q default %q, expected %q default %q", s.key, cd.Value, cd.DefaultValue, want, s.def)
		}
	}
	name := set["obj_name"]
	if name == "" {
		name = "go1"
	}
	g := conf.GetInstance()
	if g.ObjName != "/host/"+name || g.ObjHash != hash("/host/"+name) {
		return fmt.Sprintf("object is %q with hash %d", g.ObjName, g.ObjHash)
	}
	return ""
}

func init() {
	texts := []struct {
		text string
		set  map[string]string
	}{
		{"udp_max_bytes=1000\n", map[string]string{"udp_max_bytes": "1000"}},
		{"udp_max_bytes = 2000\nobj_name: n2\n", map[string]string{"udp_max_bytes": "2000", "obj_name": "n2"}},
		{"", nil},
		{"obj_name n3\n# comment\n! comment\n\nxlog_sampling_enabled=true", map[string]string{"obj_name": "n3", "xlog_sampling_enabled": "true"}},
		{"a=${b}\nb=${a}\nudp_max_bytes=1\n", nil},
	}
	const badText = 4
	register(&Property{ID: "C13",
		Bounds:      "each of 63 settings with 8 to 11 values, added, changed and removed again; environment x file x default for 3 settings with 5 values each; 20 notations; every history of 5 (thorough: 6) of 10 file events observed by the background poll; changes 1 ms to 2 s apart, each told to 3 observers; the file replaced or moved away and back at every step of a reload and every single file operation of 3 reloads failing; 4 ways to name the file; sequences of 3 (thorough: 5) of 4 object names with all that is sent under them",
		Assumptions: []string{"each change of the file's text changes its modification time", "the file is readable when the agent starts", "a reload that cannot read or parse the file keeps the previous settings"},
		QuickSec:    100, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "each-setting", Body: func(x *X) {
				s := settings[vsched.Choose(len(settings), "setting")]
				vals := map[byte][]string{
					'b': {"true", "false", "TRUE", "1", "0", "yes", "on", "abc", ""},
					'i': {"0", "1", "-1", "77", "2147483647", "-2147483648", "abc", "1.5", "", "0x10", "+5"},
					's': {"v", "", "a,b", "x=y", "한글", "/a*,*b", "a b", "a\\\\b"},
				}[s.kind]
				boot("", "scouterx/conf")
				confState(x, "no file", nil)
				step := func(what string, set map[string]string) {
					advance(1000 * ms)
					t := ""
					for k, v := range set {
						t += k + "=" + v + "\n"
					}
					vos.Put(confPath, t)
					conf.GetInstance().Refresh()
					m := map[string]string{}
					for k, v := range set {
						m[k] = strings.ReplaceAll(v, "\\\\", "\\")
					}
					confState(x, what, m)
					x.Case()
				}
				for _, v := range vals {
					step(fmt.Sprintf("%s=%q", s.key, v), map[string]string{s.key: v})
				}
				step("removed "+s.key, map[string]string{"other": "1"})
				step("restored "+s.key, map[string]string{s.key: vals[0]})
				vos.Del(confPath)
				conf.GetInstance().Refresh()
				confState(x, "file deleted", nil)
			}},
			{Name: "sources", Body: func(x *X) {
				keys := []string{"obj_name", "udp_max_bytes", "trace_obj_send"}
				k := keys[vsched.Choose(3, "setting")]
				vals := map[string][]string{"obj_name": {"-", "", "e=1", "f", "go1"}, "udp_max_bytes": {"-", "", "5", "x", "60000"}, "trace_obj_send": {"-", "", "true", "no", "1"}}[k]
				e, f := vals[vsched.Choose(5, "environment")], vals[vsched.Choose(5, "file")]
				raw := vsched.Choose(2, "odd environment entries") == 1
				want := map[string]string{}
				if e != "-" {
					vos.Setenv(k, e)
					want[k] = e
				}
				if raw {
					vos.AddRawEnv("NOEQUALSIGN")
					vos.AddRawEnv("=C:=C:\\x")
					vos.AddRawEnv("EMPTY=")
					vos.AddRawEnv("PS1=${debian_chroot:+x}\\u@\\h")
				}
				cfg := "other=1\n"
				if f != "-" {
					cfg += k + "=" + f + "\n"
					want[k] = f
				}
				boot(cfg, "scouterx/conf")
				confState(x, fmt.Sprintf("%s: environment %q, file %q", k, e, f), want)
				vos.Del(confPath)
				delete(want, k)
				if e != "-" {
					want[k] = e
				}
				vsched.Sleep(6000 * ms)
				confState(x, fmt.Sprintf("%s: environment %q, file deleted", k, e), want)
				x.Case()
			}},
			{Name: "notations", Body: func(x *X) {
				nt := []struct{ text, val string }{
					{"obj_name=a", "a"}, {"obj_name = a", "a"}, {"obj_name:a", "a"}, {"obj_name a", "a"}, {"  obj_name\t=\ta", "a"},
					{"obj_name=a\r\n", "a"}, {"obj_name=a\n\n\n", "a"}, {"obj_name=a\\\n   b\n", "ab"}, {"#obj_name=z\nobj_name=a", "a"}, {"!obj_name=z\n", ""},
					{"obj_name=z\nobj_name=a\n", "a"}, {"obj_name=\\u0041\n", "A"}, {"obj_name=a=b\n", "a=b"}, {"obj_name=a:b\n", "a:b"}, {"obj_name=a#b\n", "a#b"},
					{"obj_type=t\nobj_name=x${obj_type}y\n", "xty"}, {"obj_name\n", ""}, {"obj_name=\n", ""}, {"obj_name=${undefined_thing}q\n", "q"}, {"obj_name=한\n", "한"},
				}
				n := nt[vsched.Choose(len(nt), "notation")]
				boot(n.text, "scouterx/conf")
				set := map[string]string{"obj_name": n.val}
				if strings.HasPrefix(n.text, "obj_type=t") {
					set["obj_type"] = "t"
				}
				confState(x, fmt.Sprintf("file %q", n.text), set)
				x.Case()
			}},
			{Name: "histories", Body: func(x *X) {
				depth := 5
				if x.Deep() {
					depth = 6
				}
				boot(texts[0].text, "scouterx/conf")
				confState(x, "start", texts[0].set)
				file, aside := 0, -1 // -1 absent
				denied := false
				cur := texts[0].set
				tr := ""
				old := int64(0)
				for i := 0; i < depth; i++ {
					vsched.Sleep(1000 * ms)
					switch op := vsched.Choose(10, "event"); op {
					case 0, 1, 2, 3, 4:
						file = op
						vos.Put(confPath, texts[op].text)
						tr += fmt.Sprintf("write%d ", op)
					case 5:
						file = -1
						vos.Del(confPath)
						tr += "delete "
					case 6:
						denied = !denied
						if denied {
							vos.Failing["open:"+confPath] = syscall.EACCES
						} else {
							delete(vos.Failing, "open:"+confPath)
						}
						tr += fmt.Sprintf("denied=%v ", denied)
					case 7:
						// an older file takes its place
						file = (file + 2) % 4
						old -= 1000 * ms
						vos.Put(confPath, texts[file].text)
						vos.SetMtime(confPath, old)
						tr += fmt.Sprintf("old%d ", file)
					case 8:
						tr += "- "
					case 9:
						// the file is moved away, or back as it was
						if aside == -1 {
							if file == -1 {
								return
							}
							vos.Rename(confPath, confPath+".aside")
							aside, file = file, -1
							tr += "away "
						} else {
							vos.Rename(confPath+".aside", confPath)
							file, aside = aside, -1
							tr += "back "
						}
					}
					vsched.Sleep(5500 * ms)
					switch {
					case file == -1:
						if !denied {
							cur = nil
						}
					case file == badText || denied:
					default:
						cur = texts[file].set
					}
					if file == -1 && denied {
						// both outcomes of opening a missing file in a forbidden folder are possible
						if confDiff(nil) == "" {
							cur = nil
						}
					}
					confState(x, tr, cur)
				}
				x.Case()
				x.Sample("%s", tr)
			}},
			{Name: "quick-changes", Body: func(x *X) {
				// changes that follow each other closely, the first one right after a reload
				boot(texts[0].text, "scouterx/conf")
				confState(x, "start", texts[0].set)
				polled := vsched.Choose(2, "background poll") == 1
				if polled {
					vsched.Sleep(5000 * ms)
				}
				var told [3]int
				for i := range told {
					i := i
					conf.AddToConfObserver(fmt.Sprintf("harness%d", i), observer(func() { told[i]++ }))
				}
				var names []string // told to the observer of the object name
				conf.AddObjChangedObserver(observer(func() { names = append(names, conf.GetInstance().ObjName) }))
				tr := ""
				for i := 0; i < 3; i++ {
					d := []int64{1, 10, 499, 999, 2000}[vsched.Choose(5, "pause")]
					vsched.Sleep(d * ms)
					t := vsched.Choose(4, "text")
					vos.Put(confPath, texts[t].text)
					tr += fmt.Sprintf("%d ms, text %d; ", d, t)
					was, name := told, conf.GetInstance().ObjName
					names = nil
					if polled {
						vsched.Sleep(5000 * ms)
					} else {
						conf.GetInstance().Refresh()
					}
					confState(x, tr, texts[t].set)
					for i := range told {
						x.Check(told[i] > was[i], "%s: observer %d was not told of the change", tr, i)
					}
					if now := conf.GetInstance().ObjName; now != name {
						x.Check(len(names) == 1 && names[0] == now, "%s: the name changed from %s to %s, its observer saw %q", tr, name, now, names)
					} else {
						x.Check(len(names) == 0, "%s: the name stayed %s, its observer saw %q", tr, name, names)
					}
				}
				x.Case()
			}},
			{Name: "replaced-during-reload", Cfg: Config{Pkgs: []string{"scouterx/conf"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				boot(texts[0].text, "scouterx/conf")
				confState(x, "start", texts[0].set)
				advance(1000 * ms)
				first := vsched.Choose(3, "first event")
				second := vsched.Choose(4, "second event")
				ev := func(k int) {
					switch k {
					case 0:
						vos.Put(confPath, texts[1].text)
					case 1:
						vos.Put(confPath, texts[3].text)
					case 2:
						vos.Del(confPath)
					case 3:
						vos.Rename(confPath, confPath+".aside")
						vsched.Point("while the file is away")
						vos.Rename(confPath+".aside", confPath)
					}
				}
				ev(first)
				vsched.Explore(true)
				par(func() { conf.GetInstance().Refresh() }, func() {
					vsched.Point("before the file changes")
					advance(1000 * ms)
					ev(second)
				}, func() { conf.GetInstance().Refresh() })
				vsched.Explore(false)
				last := second
				if second == 3 {
					last = first
				}
				vsched.Sleep(6000 * ms)
				confState(x, fmt.Sprintf("file event %d during the reload of %d", second, first), []map[string]string{texts[1].set, texts[3].set, nil}[last])
				x.Observe("%d %d", first, second)
			}},
			{Name: "moved-during-reload", Cfg: Config{Pkgs: []string{"scouterx/conf"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				// the file is away for a moment while it is being read
				boot(texts[0].text, "scouterx/conf")
				confState(x, "start", texts[0].set)
				advance(1000 * ms)
				vos.Put(confPath, texts[1].text)
				vsched.Explore(true)
				par(func() { conf.GetInstance().Refresh() }, func() {
					vos.Rename(confPath, confPath+".aside")
					vsched.Point("while the file is away")
					vos.Rename(confPath+".aside", confPath)
				})
				vsched.Explore(false)
				vsched.Sleep(6000 * ms)
				confState(x, "file moved away and back during its reload", texts[1].set)
			}},
			{Name: "failing-reload", One: true, MaxCost: 2, Deep: 4, Body: func(x *X) {
				boot(texts[0].text, "scouterx/conf")
				confState(x, "start", texts[0].set)
				vos.FaultOps = map[string]bool{"open": true, "read": true, "stat": true, "mkdir": true}
				vos.ShortReads = true
				for i := 1; i < 4; i++ {
					vsched.Sleep(1000 * ms)
					before := confDiff(texts[i-1].set) == ""
					if i == 2 {
						vos.Del(confPath)
					} else {
						vos.Put(confPath, texts[i].text)
					}
					vsched.Explore(true)
					conf.GetInstance().Refresh()
					vsched.Explore(false)
					d := confDiff(texts[i].set)
					x.Check(d == "" || before && confDiff(texts[i-1].set) == "", "after a failing reload neither the old nor the new settings are in effect: %s", d)
					vsched.Sleep(6000 * ms)
					confState(x, fmt.Sprintf("reload %d after a failing one", i), texts[i].set)
				}
				x.Observe("x")
			}},
			{Name: "name in use", Body: func(x *X) {
				// what is sent after a change of the object name carries the new one
				boot(keepAll, "scouterx", "scouterx/strace")
				depth := 3
				if x.Deep() {
					depth = 5
				}
				tr := ""
				for i := 0; i < depth; i++ {
					k := vsched.Choose(4, "name")
					name := []string{"go1", "n2", "n3", "a/b"}[k]
					tr += name + " "
					advance(10 * ms)
					vos.Put(confPath, keepAll+[]string{"", "obj_name=n2\n", "obj_name=n3\nobj_type=t\n", "obj_name=a/b\n"}[k])
					if vsched.Choose(2, "how") == 0 {
						conf.GetInstance().Refresh()
					} else {
						vsched.Sleep(6000 * ms)
					}
					ctx, id := startSvc("/s")
					strace.AddMessageStep(ctx, "m")
					strace.EndService(ctx)
					from := vsched.Now()
					vsched.Sleep(4500 * ms)
					c := received(x)
					h := hash("/host/" + name)
					l := completedOnce(x, c, id, "/s")
					x.Check(l.ObjHash == h, "%s: the record names object %d, not %d", tr, l.ObjHash, h)
					ps := c.profilesOf(id)
					x.Check(len(ps) > 0, "%s: no profile", tr)
					for _, q := range ps {
						x.Check(q.ObjHash == h, "%s: the profile names object %d, not %d", tr, q.ObjHash, h)
					}
					beats, counts := 0, 0
					for _, o := range c.objs {
						if c.at[o] > from {
							x.Check(o.Name == "/host/"+name && o.Hash == h && o.Type == map[bool]string{true: "t", false: "golang"}[k == 2], "%s: heartbeat %+v", tr, *o)
							beats++
						}
					}
					for _, o := range c.perfs {
						if c.at[o] > from+100*ms {
							x.Check(o.Obj == "/host/"+name, "%s: counters of object %s", tr, o.Obj)
							counts++
						}
					}
					x.Check(beats >= 2 && counts >= 1, "%s: %d heartbeats, %d counters in 4.5 s", tr, beats, counts)
				}
				x.Case()
			}},
			{Name: "locations", Body: func(x *X) {
				k := vsched.Choose(4, "named by")
				p := confPath
				if k&1 == 1 {
					vos.Setenv("scouter.config", "/etc/s/lower.conf")
					p = "/etc/s/lower.conf"
				}
				if k&2 == 2 {
					vos.Setenv("SCOUTER_CONFIG", "/etc/s/upper.conf")
					p = "/etc/s/upper.conf"
				}
				for i, f := range []string{confPath, "/etc/s/lower.conf", "/etc/s/upper.conf"} {
					vos.Put(f, fmt.Sprintf("obj_name=wrong%d\n", i))
				}
				vos.Put(p, "obj_name=right\n")
				boot("", "scouterx/conf")
				confState(x, "file "+p, map[string]string{"obj_name": "right"})
				x.Check(conf.LoadConfigText() == "obj_name=right\n", "loaded text %q", conf.LoadConfigText())
				advance(1000 * ms)
				x.Check(conf.SaveConfigText("obj_name=saved\n"), "not saved")
				got, _ := vos.Get(p)
				x.Check(got == "obj_name=saved\n", "saved to another file than %s", p)
				vsched.Sleep(6000 * ms)
				confState(x, "saved to "+p, map[string]string{"obj_name": "saved"})
				x.Case()
			}},
		}})
}
