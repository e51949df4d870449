package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vrand"
	"vshim/vsched"
)

// sampling is one group of sampling settings.
type sampling struct {
	on, only bool
	patterns string
	step     [3]int
	pct      [4]int
}

func (s sampling) conf(prefix string) string {
	b := fmt.Sprintf("%ssampling_enabled=%v\n%ssampling_only_profile=%v\n", prefix, s.on, prefix, s.only)
	if s.patterns != "" {
		b += prefix + "sampling_service_patterns=" + s.patterns + "\n"
	}
	for i, v := range s.step {
		b += fmt.Sprintf("%ssampling_step%d_ms=%d\n", prefix, i+1, v)
	}
	for i, v := range s.pct {
		k := fmt.Sprintf("step%d", i+1)
		if i == 3 {
			k = "over"
		}
		b += fmt.Sprintf("%ssampling_%s_rate_pct=%d\n", prefix, k, v)
	}
	return b
}

// rate is the percentage of services of this duration that are kept.
func (s sampling) rate(el int) int {
	for i, t := range s.step {
		if el < t {
			return s.pct[i]
		}
	}
	return s.pct[3]
}

type policy struct {
	g         [4]sampling // global, patterned 1 to 3
	exclude   string
	discard   string
	showError bool
}

var prefixes = [4]string{"xlog_", "xlog_patterned_", "xlog_patterned2_", "xlog_patterned3_"}

func (p policy) conf() string {
	s := ""
	for i, g := range p.g {
		s += g.conf(prefixes[i])
	}
	return s + fmt.Sprintf("xlog_sampling_exclude_patterns=%s\nxlog_discard_service_patterns=%s\nxlog_discard_service_show_error=%v\n", p.exclude, p.discard, p.showError)
}

// match: these scenarios use alternatives of the form prefix*.
func match(patterns, name string) bool {
	if patterns == "" {
		return false
	}
	for _, p := range strings.Split(patterns, ",") {
		if strings.HasPrefix(name, strings.TrimSuffix(p, "*")) {
			return true
		}
	}
	return false
}

// group says which settings decide about a service: -1 none.
func (p policy) group(name string) int {
	if p.g[0].on && match(p.exclude, name) {
		return -1
	}
	for i := 1; i < 4; i++ {
		if p.g[i].on && match(p.g[i].patterns, name) {
			return i
		}
	}
	if p.g[0].on {
		return 0
	}
	return -1
}

// verdict: 1 kept, 2 record and profile dropped, 3 profile dropped, 4 dropped by name. keep is the sampling's draw.
func (p policy) verdict(name string, el int, err, keep bool) int {
	if match(p.discard, name) {
		if err && p.showError {
			return 1
		}
		return 4
	}
	if err {
		return 1
	}
	k := p.group(name)
	if k < 0 || keep {
		return 1
	}
	if p.g[k].only {
		return 3
	}
	return 2
}

type outcome struct {
	id    int64
	name  string
	el    int
	err   bool
	child bool
	want  int
}

// oneService runs a service of the given kind and returns its id.
func oneService(name string, el int, err, child bool, parent context.Context) int64 {
	body := func(ctx context.Context) int64 {
		id := txidOf(ctx)
		vsched.Advance(dur(int64(el) * ms))
		strace.AddMessageStep(ctx, "m")
		if err {
			strace.MarkAsError(ctx, "failed")
		}
		return id
	}
	if child {
		var id int64
		strace.GoWithTrace(parent, name, func(c context.Context) { id = body(c) })
		vsched.Settle()
		return id
	}
	ctx := strace.StartService(bg(), name, "")
	id := body(ctx)
	strace.EndService(ctx)
	return id
}

func (o outcome) check(x *X, c *capture, what string) {
	l, pr := c.xlogsOf(o.id), c.profilesOf(o.id)
	sent := o.want == 1 || o.want == 3 || o.want == 2 && o.child
	d := fmt.Sprintf("%s: service %s of %d ms, error %v, child %v", what, o.name, o.el, o.err, o.child)
	if !sent {
		x.Check(len(l) == 0, "%s: recorded although it is to be dropped", d)
	} else {
		x.Check(len(l) == 1, "%s: %d records, expected 1", d, len(l))
		x.Check(l[0].Discard == o.want, "%s: recorded with discard type %d, expected %d", d, l[0].Discard, o.want)
		x.Check(int(l[0].Elapsed) == o.el, "%s: recorded with %d ms", d, l[0].Elapsed)
	}
	if o.want == 1 {
		x.Check(len(pr) == 1 && len(pr[0].Steps) >= 2, "%s: profile missing", d)
		x.Check(int(l[0].ProfileCount) == len(pr[0].Steps), "%s: profile count %d", d, l[0].ProfileCount)
	} else {
		x.Check(len(pr) == 0, "%s: profile sent although it is to be dropped", d)
	}
}

func init() {
	base := func() policy {
		p := policy{showError: true}
		pat := []string{"", "/p1*,/a*", "/p2*,/a*,/q*", "/p3*,/a*,/q*"}
		for i := range p.g {
			p.g[i] = sampling{patterns: pat[i], step: [3]int{100 + 10*i, 500 + 10*i, 1000 + 10*i}}
		}
		return p
	}
	register(&Property{ID: "C08",
		Bounds:      "all 2048 combinations of the sampling and discard switches x 2 rate patterns x 8 service names x 4 durations x error or not x root or asynchronous child; every boundary duration and 10 rates (each with all 100 random draws) in each of the 4 sampling groups; default and disordered thresholds",
		Assumptions: []string{"the random draw is uniform over the values the explorer enumerates (math/rand Intn)"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "switches", Body: func(x *X) {
				m := vsched.Choose(4096, "switches")
				p := base()
				for i := range p.g {
					p.g[i].on = m>>uint(i)&1 == 1
					p.g[i].only = m>>uint(4+i)&1 == 1
					hi := m>>8&1 == i&1
					for j := range p.g[i].pct {
						if (j&1 == 0) == hi {
							p.g[i].pct[j] = 100
						}
					}
				}
				if m>>9&1 == 1 {
					p.exclude = "/x*,/p1x*"
				}
				if m>>10&1 == 1 {
					p.discard = "/d*,/p2d*"
				}
				p.showError = m>>11&1 == 1
				boot(p.conf(), "scouterx/strace")
				root, _ := startSvc("/root")
				var outs []outcome
				n := metered()
				for _, name := range []string{"/o", "/p1", "/p2d", "/p3", "/all", "/q", "/p1x", "/d"} {
					for _, el := range []int{50, 300, 700, 2000} {
						for k := 0; k < 4; k++ {
							o := outcome{name: name, el: el, err: k&1 == 1, child: k&2 == 2}
							g := p.group(name)
							keep := g >= 0 && p.g[g].rate(el) >= 100
							o.want = p.verdict(name, el, o.err, keep)
							o.id = oneService(name, el, o.err, o.child, root)
							outs = append(outs, o)
							n++
							x.Case()
						}
					}
				}
				x.Check(metered() == n, "%d completions counted of %d (dropped ones count too)", metered(), n)
				drain()
				c := received(x)
				for _, o := range outs {
					o.check(x, c, fmt.Sprintf("switches %012b", m))
				}
			}},
			{Name: "boundaries", Body: func(x *X) {
				g := vsched.Choose(4, "group")
				band := vsched.Choose(4, "band kept")
				order := vsched.Choose(3, "thresholds")
				only := vsched.Choose(2, "only profile") == 1
				p := base()
				p.g[g].on, p.g[g].only = true, only
				p.g[g].step = [][3]int{{100, 500, 1000}, {500, 100, 300}, {0, 1, 2}}[order]
				p.g[g].pct = [4]int{}
				p.g[g].pct[band] = 100
				boot(p.conf(), "scouterx/strace")
				name := []string{"/o", "/p1", "/p2", "/p3"}[g]
				var outs []outcome
				for _, el := range []int{0, 1, 2, 3, 99, 100, 101, 299, 300, 499, 500, 501, 999, 1000, 1001, 60000} {
					o := outcome{name: name, el: el}
					o.want = p.verdict(name, el, false, p.g[g].rate(el) >= 100)
					o.id = oneService(name, el, false, false, nil)
					outs = append(outs, o)
					x.Case()
				}
				drain()
				c := received(x)
				for _, o := range outs {
					o.check(x, c, fmt.Sprintf("group %d thresholds %v band %d", g, p.g[g].step, band))
				}
			}},
			{Name: "rates", Body: func(x *X) {
				g := vsched.Choose(4, "group")
				band := vsched.Choose(4, "band")
				rates := []int{-5, 0, 1, 2, 7, 50, 99, 100, 101, 3000}
				pct := rates[vsched.Choose(len(rates), "rate")]
				p := base()
				p.g[g].on = true
				for i := range p.g[g].pct {
					p.g[g].pct[i] = 100 - pct%100 // other bands differ
				}
				p.g[g].pct[band] = pct
				boot(p.conf(), "scouterx/strace")
				name := []string{"/o", "/p1", "/p2", "/p3"}[g]
				draw := 0
				vrand.Intner = func(n int) int {
					if n <= 0 {
						return 0
					}
					return draw * n / 100
				}
				var ids []int64
				for draw = 0; draw < 100; draw++ {
					ids = append(ids, oneService(name, []int{50, 300, 700, 5000}[band], false, false, nil))
				}
				drain()
				c := received(x)
				n := 0
				for _, id := range ids {
					n += len(c.xlogsOf(id))
				}
				want := pct
				if want < 0 {
					want = 0
				}
				if want > 100 {
					want = 100
				}
				x.Check(n == want, "group %d band %d rate %d%%: %d of 100 equally likely draws kept", g, band, pct, n)
				x.Case()
			}},
			{Name: "defaults", Body: func(x *X) {
				k := vsched.Choose(2, "enabled")
				boot(map[int]string{0: "", 1: "xlog_sampling_enabled=true\n"}[k], "scouterx/strace")
				draw := 0
				vrand.Intner = func(n int) int { return draw * n / 100 }
				want := []int{100, 100, 100, 100}
				if k == 1 {
					want = []int{2, 7, 15, 100}
				}
				var ids [4][]int64
				for b, el := range []int{99, 499, 999, 1000} {
					for draw = 0; draw < 100; draw++ {
						ids[b] = append(ids[b], oneService("/s", el, false, false, nil))
					}
				}
				drain()
				c := received(x)
				for b := range ids {
					n := 0
					for _, id := range ids[b] {
						n += len(c.xlogsOf(id))
					}
					x.Check(n == want[b], "default settings, enabled=%v, band %d: %d of 100 kept, expected %d", k == 1, b, n, want[b])
				}
				x.Case()
			}},
		}})
}
