package main

import (
	"fmt"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vos"
	"vshim/vsched"
)

// glob is the reference: * stands for any run of bytes, everything else for itself.
func glob(p, t string) bool {
	row := make([]bool, len(t)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(t)+1)
		for j := 0; j <= len(t); j++ {
			if p[i] == '*' {
				next[j] = row[j] || j > 0 && next[j-1]
			} else if j > 0 {
				next[j] = row[j-1] && p[i] == t[j-1]
			}
		}
		row = next
	}
	return row[len(t)]
}

func words(alphabet string, lo, hi int) []string {
	var out []string
	var rec func(s string)
	rec = func(s string) {
		if len(s) >= lo {
			out = append(out, s)
		}
		if len(s) == hi {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			rec(s + alphabet[i:i+1])
		}
	}
	rec("")
	return out
}

func init() {
	all := func(pal, tal string, np, nt, dnp, dnt int) func(x *X) {
		return func(x *X) {
			boot("", "scouterx/common/util")
			a, b := np, nt
			if x.Deep() {
				a, b = dnp, dnt
			}
			ts := words(tal, 1, b)
			for _, p := range words(pal, 0, a) {
				if !x.Mine() {
					continue
				}
				m := util.NewCommaSeparatedChainedStrMatcher(p)
				for _, t := range ts {
					if m.IsMatch(t) != glob(p, t) {
						x.Failf("pattern %q on %q: %v, must be %v", p, t, !glob(p, t), glob(p, t))
					}
					x.Cases++
				}
				x.States++
			}
		}
	}
	register(&Property{ID: "C09",
		Bounds:      "all patterns up to 10 (thorough: 11) characters over {a,b,*} against all names up to 9 (thorough: 11) characters over {a,b}; all patterns over {a,*} up to 14 (thorough: 16) against names up to 16 (thorough: 18); all chains of 2 patterns up to 3 characters and of 3 patterns up to 2; characters with a meaning in other pattern languages; through the discard decision of the agent",
		Assumptions: []string{"names are not empty"},
		QuickSec:    60, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "two-letters", Whole: true, Body: all("ab*", "ab", 10, 9, 11, 11)},
			{Name: "one-letter", Whole: true, Body: all("a*", "a", 14, 16, 16, 18)},
			{Name: "special", Whole: true, Body: all("a.?*", "a.?", 6, 6, 7, 7)},
			{Name: "special2", Whole: true, Body: all("\\[^*", "\\[^a", 6, 5, 7, 5)},
			{Name: "multibyte", Whole: true, Body: all("\xed\x95 *", "\xed\x95 ", 6, 6, 7, 7)},
			{Name: "chains", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/util")
				ts := words("ab", 1, 4)
				check := func(chain string) {
					m := util.NewCommaSeparatedChainedStrMatcher(chain)
					for _, t := range ts {
						want := false
						for _, p := range strings.Split(chain, ",") {
							want = want || glob(p, t)
						}
						if m.IsMatch(t) != want {
							x.Failf("patterns %q on %q: %v, must be %v", chain, t, !want, want)
						}
						x.Cases++
					}
					x.States++
				}
				p3, p2 := words("ab*", 0, 3), words("ab*", 0, 2)
				for _, a := range p3 {
					if !x.Mine() {
						continue
					}
					for _, b := range p3 {
						check(a + "," + b)
					}
				}
				for _, a := range p2 {
					if !x.Mine() {
						continue
					}
					for _, b := range p2 {
						for _, c := range p2 {
							check(a + "," + b + "," + c)
						}
					}
				}
			}},
			{Name: "agent", Body: func(x *X) {
				pats := []string{"/a*", "*<GET>", "/a/*<GET>", "*b*", "/a/b<POST>", "*a*b*", "/*/b*<*>", "a", "**", "/a,/b*", "b*,*<POST>", ",", "*a/b<GET>"}
				p := pats[vsched.Choose(len(pats), "pattern")]
				boot("xlog_discard_service_patterns="+p+"\n", "scouterx/strace")
				type tc struct {
					id   int64
					name string
				}
				var l []tc
				for _, path := range []string{"/", "/a", "/a/b", "/b", "/a/a/b/b", "/ab", "/é"} {
					for _, m := range []string{"GET", "POST"} {
						ctx := strace.StartHttpService(bg(), httpReq(m, "http://h"+path))
						strace.EndService(ctx)
						l = append(l, tc{txidOf(ctx), path + "<" + m + ">"})
					}
				}
				drain()
				c := received(x)
				for _, t := range l {
					want := true
					for _, q := range strings.Split(p, ",") {
						want = want && !glob(q, t.name)
					}
					x.Check((len(c.xlogsOf(t.id)) == 1) == want, "discard pattern %q, service %s: %d records", p, t.name, len(c.xlogsOf(t.id)))
				}
				x.Case()
			}},
		}})

	// C10: changed patterns and switches
	keys := []string{"xlog_discard_service_patterns", "xlog_sampling_exclude_patterns", "xlog_patterned_sampling_service_patterns", "xlog_patterned2_sampling_service_patterns", "xlog_patterned3_sampling_service_patterns"}
	vals := []string{"", "/a*", "/b*", "*1,/b*"}
	names := []string{"/a1", "/a2", "/b2", "/c2"}
	cfg := func(k, v int) (string, policy) {
		p := policy{showError: true}
		for i := range p.g {
			p.g[i] = sampling{step: [3]int{100, 500, 1000}}
		}
		switch k {
		case 0:
			p.discard = vals[v]
		case 1:
			p.exclude = vals[v]
			p.g[0].on = true
		default:
			p.g[k-1].on = true
			p.g[k-1].patterns = vals[v]
		}
		return p.conf(), p
	}
	want := func(p policy, name string) bool {
		in := func(pats string) bool {
			for _, q := range strings.Split(pats, ",") {
				if pats != "" && glob(q, name) {
					return true
				}
			}
			return false
		}
		if in(p.discard) {
			return false
		}
		if p.g[0].on && in(p.exclude) {
			return true
		}
		for i := 1; i < 4; i++ {
			if p.g[i].on && in(p.g[i].patterns) {
				return false
			}
		}
		return !p.g[0].on
	}
	judge := func(x *X, what string, p policy) {
		ids := map[string]int64{}
		for _, n := range names {
			ids[n] = oneService(n, 5, false, false, nil)
		}
		drain()
		c := received(x)
		for _, n := range names {
			x.Check((len(c.xlogsOf(ids[n])) == 1) == want(p, n), "%s: service %s has %d records, kept must be %v", what, n, len(c.xlogsOf(ids[n])), want(p, n))
		}
	}
	register(&Property{ID: "C10",
		Bounds:      "every sequence of 4 (thorough: 5) contents of each of the 5 pattern settings, applied by editing, replacing or deleting the file, by refresh or by the background poll; two contents (thorough: three) of each of the 5 settings at once, replaced by two others of each; the first use of the sampler interleaved with a configuration change at every shared access; concurrent refreshes",
		Assumptions: []string{"each change of the file changes its modification time"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "sequences", Body: func(x *X) {
				k := vsched.Choose(len(keys), "setting")
				poll := vsched.Choose(2, "background poll") == 1
				n := 4
				if x.Deep() {
					n = 5
				}
				what := keys[k] + ":"
				for i := 0; i < n; i++ {
					v := vsched.Choose(len(vals), "value")
					text, p := cfg(k, v)
					what += " [" + vals[v] + "]"
					if i == 0 {
						boot(text, "scouterx/strace")
					} else {
						advance(1000 * ms)
						vos.Put(confPath, text)
						if poll {
							vsched.Sleep(6000 * ms)
						} else {
							conf.GetInstance().Refresh()
						}
					}
					judge(x, what, p)
				}
				x.Case()
				x.Sample("%s", what)
			}},
			{Name: "joint-changes", Body: func(x *X) {
				// several settings change in one edit of the file: each has patterns of its own
				n := 2
				if x.Deep() {
					n = 3
				}
				draw := func(what string) (v [5]int) {
					for k := range v {
						v[k] = vsched.Choose(n, what)
					}
					return
				}
				joint := func(v [5]int) policy {
					pat := func(k int) string {
						if v[k] == 2 {
							return ""
						}
						return fmt.Sprintf("/s%dv%d*", k, v[k])
					}
					p := policy{showError: true}
					for i := range p.g {
						p.g[i] = sampling{on: true, step: [3]int{100, 500, 1000}, pct: [4]int{100, 100, 100, 100}}
					}
					p.g[0].pct = [4]int{}
					p.discard = pat(0)
					p.exclude = "/s0*"
					if e := pat(1); e != "" {
						p.exclude = e + ",/s0*"
					}
					for i := 1; i < 4; i++ {
						p.g[i].patterns = pat(i + 1)
					}
					return p
				}
				v0, v1 := draw("before"), draw("after")
				boot(joint(v0).conf(), "scouterx/strace")
				for i, v := range [][5]int{v0, v1} {
					p := joint(v)
					if i == 1 {
						advance(1000 * ms)
						vos.Put(confPath, p.conf())
						conf.GetInstance().Refresh()
					}
					ids := map[string]int64{}
					for k := 0; k < 5; k++ {
						for w := 0; w < 2; w++ {
							n := fmt.Sprintf("/s%dv%dx", k, w)
							ids[n] = oneService(n, 5, false, false, nil)
						}
					}
					drain()
					c := received(x)
					for n, id := range ids {
						keep := !match(p.discard, n) && (match(p.exclude, n) || p.group(n) > 0)
						x.Check((len(c.xlogsOf(id)) == 1) == keep, "settings changed from %v to %v (load %d): service %s has %d records, kept must be %v", v0, v1, i, n, len(c.xlogsOf(id)), keep)
					}
				}
				x.Case()
			}},
			{Name: "first-use-vs-change", Cfg: Config{Pkgs: []string{"scouterx/strace", "scouterx/conf"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				k := vsched.Choose(len(keys), "setting")
				v0 := vsched.Choose(2, "before")
				t0, _ := cfg(k, v0)
				t1, p1 := cfg(k, 2)
				boot(t0, "scouterx/strace")
				advance(1000 * ms)
				vos.Put(confPath, t1)
				ctx, _ := startSvc("/x")
				vsched.Explore(true)
				par(func() { strace.EndService(ctx) }, func() { conf.GetInstance().Refresh() })
				vsched.Explore(false)
				judge(x, keys[k]+" changed during first use", p1)
				x.Observe("%d", k)
			}},
			{Name: "use-vs-change", Cfg: Config{Pkgs: []string{"scouterx/strace"}}, MaxCost: 1, Deep: 2, Body: func(x *X) {
				k := vsched.Choose(len(keys), "setting")
				t0, p0 := cfg(k, 1)
				t1, p1 := cfg(k, 2)
				boot(t0, "scouterx/strace")
				oneService("/warm", 1, false, false, nil)
				advance(1000 * ms)
				vos.Put(confPath, t1)
				ctx, id := startSvc("/c2")
				vsched.Explore(true)
				par(func() { strace.EndService(ctx) }, func() { conf.GetInstance().Refresh() }, func() { conf.GetInstance().Refresh() })
				vsched.Explore(false)
				// /c2 is judged alike before and after
				x.Check(want(p0, "/c2") == want(p1, "/c2"), "harness")
				judge(x, keys[k]+" changed during use", p1)
				c := received(x)
				x.Check((len(c.xlogsOf(id)) == 1) == want(p1, "/c2"), "%s changed during use: service has %d records", keys[k], len(c.xlogsOf(id)))
			}},
		}})
}
