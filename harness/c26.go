package main

import (
	"fmt"
	"math"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/verifreg"
	"vshim/vsched"
)

// sample is one metered event.
type sample struct {
	sec     int64
	elapsed int
	err     bool
	val     float64
}

func nowSec() int64 { return (vsched.Epoch.UnixNano() + vsched.Now()) / int64(1e9) }

// inWindow keeps the samples of the last period seconds, the current one included.
func inWindow(l []sample, period int, now int64) (w []sample, p int) {
	if period > 300 {
		period = 300
	}
	for _, s := range l {
		if s.sec > now-int64(period) && s.sec <= now {
			w = append(w, s)
		}
	}
	return w, period
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-4*math.Max(1, math.Abs(b)) }

// exact allows for rounding in the order of additions only.
func exact(a, b float64) bool { return math.Abs(a-b) <= 1e-12*math.Max(1, math.Abs(b)) }

// serviceStats are the reference figures.
func serviceStats(l []sample, period int, now int64) (tps float64, elapsed int, rate float64) {
	w, p := inWindow(l, period, now)
	sum, errs := 0, 0
	for _, s := range w {
		sum += s.elapsed
		if s.err {
			errs++
		}
	}
	if len(w) > 0 {
		elapsed, rate = sum/len(w), float64(errs)*100/float64(len(w))
	}
	return float64(len(w)) / float64(p), elapsed, rate
}

func checkServices(x *X, what string, l []sample, periods []int) {
	for _, p := range periods {
		c := counter.GetServiceMeter().GetAllCounter(p)
		tps, el, rate := serviceStats(l, p, nowSec())
		if !near(float64(c.Tps), tps) || c.Elapsed != el || !near(float64(c.ErrorRate), rate) {
			x.Failf("%s: over %d s: %v services/s, %d ms, %v %% errors; must be %v, %d, %v", what, p, c.Tps, c.Elapsed, c.ErrorRate, tps, el, rate)
		}
	}
}

func init() {
	waits := []int64{0, 400, 1000, 2700, 29000, 30000, 31300, 299000, 300000, 301000, 301500, 603000}
	periods := []int{1, 2, 30, 31, 299, 300, 301, 1000}
	unbounded := Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40, HorizonNs: 1 << 62}
	register(&Property{ID: "C26",
		Bounds:      "all sequences of 4 (thorough: 5) metered services or values after one of 12 waits from 0 to 603 s, from each of 3 phases of the clock, with 8 window lengths asked after each; all groups of 4 extreme elapsed times and values; first use by 3 threads at once; 2-3 threads that add and one that asks while the second changes, 2 preemptions at every memory access (thorough: 3)",
		Assumptions: []string{"windows are at least 1 s long and at most 300 s count", "the clock does not go back", "sequentially consistent memory"},
		QuickSec:    120, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "services", Whole: true, Cfg: unbounded, Body: func(x *X) {
				boot("", "scouterx/strace")
				depth := 4
				if x.Deep() {
					depth = 5
				}
				adds := []sample{{elapsed: 100}, {elapsed: 33, err: true}}
				for _, phase := range []int64{0, 500, 999} {
					for i := range waits {
						for j := range waits {
							if !x.Mine() {
								continue
							}
							var seq []int
							var rec func()
							rec = func() {
								if len(seq) < depth {
									for k := range waits {
										seq = append(seq, k)
										rec()
										seq = seq[:len(seq)-1]
									}
									return
								}
								verifreg.Reset("scouterx/counter")
								counter.GetServiceMeter()
								advance((1000 + phase - vsched.Now()/ms%1000) * ms)
								var l []sample
								for n, k := range seq {
									advance(waits[k] * ms)
									// an idle stretch may or may not be observed in between
									if k%2 == 1 {
										counter.GetServiceMeter().GetAllCounter(30)
									}
									a := adds[(n+k)%2]
									a.sec = nowSec()
									el := a.elapsed
									if k == 1 {
										el, a.elapsed = -5, 0
									}
									counter.GetServiceMeter().Add(el, a.err)
									l = append(l, a)
									if n == depth-1 {
										checkServices(x, fmt.Sprintf("after waits %v", seq), l, periods)
									}
								}
								advance(1000 * ms)
								checkServices(x, fmt.Sprintf("1 s after waits %v", seq), l, periods)
								x.Cases++
							}
							seq = []int{i, j}
							rec()
						}
					}
				}
			}},
			{Name: "values", Whole: true, Cfg: unbounded, Body: func(x *X) {
				boot("", "scouterx/strace")
				depth := 4
				if x.Deep() {
					depth = 5
				}
				for i := range waits {
					for j := range waits {
						if !x.Mine() {
							continue
						}
						var seq []int
						var rec func()
						rec = func() {
							if len(seq) < depth {
								for k := range waits {
									seq = append(seq, k)
									rec()
									seq = seq[:len(seq)-1]
								}
								return
							}
							m := counter.NewValueMeter()
							var l []sample
							ask := func() {
								for _, p := range periods {
									w, _ := inWindow(l, p, nowSec())
									sum, avg := 0.0, 0.0
									for _, s := range w {
										sum += s.val
									}
									if len(w) > 0 {
										avg = sum / float64(len(w))
									}
									c := m.GetAllCounter(p)
									if !exact(c.Sum, sum) || !exact(c.Avg, avg) {
										x.Failf("after waits %v: over %d s: sum %v, average %v; must be %v, %v", seq, p, c.Sum, c.Avg, sum, avg)
									}
								}
							}
							for n, k := range seq {
								advance(waits[k] * ms)
								v := float64(n*n) - 0.5
								m.Add(v)
								l = append(l, sample{sec: nowSec(), val: v})
								if k%2 == 1 || n == depth-1 {
									ask()
								}
							}
							advance(1000 * ms)
							ask()
							x.Cases++
						}
						seq = []int{i, j}
						rec()
					}
				}
			}},
			{Name: "long", Whole: true, Cfg: unbounded, Body: func(x *X) {
				// a service every so often, the figures asked every second, for a long time
				boot("", "scouterx/strace")
				for _, every := range []int64{1, 2, 7, 29, 30, 31, 150, 299, 300, 301, 302} {
					for _, skip := range []int64{1, 2, 13} {
						if !x.Mine() {
							continue
						}
						verifreg.Reset("scouterx/counter")
						var l []sample
						for s := int64(0); s < 1300; s++ {
							if s%every == 0 {
								counter.GetServiceMeter().Add(int(s), s%3 == 0)
								l = append(l, sample{sec: nowSec(), elapsed: int(s), err: s%3 == 0})
							}
							if s%skip == 0 {
								if len(l) > 400 {
									l = l[len(l)-400:]
								}
								checkServices(x, fmt.Sprintf("one service every %d s, after %d s", every, s), l, periods)
							}
							advance(1000 * ms)
						}
						x.Cases++
					}
				}
			}},
			{Name: "extremes", Whole: true, Cfg: unbounded, Body: func(x *X) {
				// long services and large values add up exactly
				boot("", "scouterx/strace")
				els := []int{0, 1, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 40, -1, -1 << 40}
				vals := []float64{0, 1, -1, 0.1, 1<<24 + 1, 1<<31 + 0.5, 1<<53 - 1, -1e15, 1e18}
				each := func(n, base int, f func(k []int)) {
					k := make([]int, n)
					for {
						f(k)
						i := 0
						for ; i < n; i++ {
							if k[i]++; k[i] < base {
								break
							}
							k[i] = 0
						}
						if i == n {
							return
						}
					}
				}
				each(4, len(els), func(k []int) {
					if !x.Mine() {
						return
					}
					verifreg.Reset("scouterx/counter")
					var l []sample
					for i, e := range k {
						counter.GetServiceMeter().Add(els[e], i%2 == 1)
						el := els[e]
						if el < 0 {
							el = 0
						}
						l = append(l, sample{sec: nowSec(), elapsed: el, err: i%2 == 1})
						if i%2 == 1 {
							advance(1000 * ms)
						}
					}
					checkServices(x, fmt.Sprintf("extremes %v", k), l, periods)
					x.Cases++
				})
				each(4, len(vals), func(k []int) {
					if !x.Mine() {
						return
					}
					m := counter.NewValueMeter()
					sum := 0.0
					for i, v := range k {
						m.Add(vals[v])
						sum += vals[v]
						if i%2 == 1 {
							advance(1000 * ms)
						}
					}
					c := m.GetAllCounter(30)
					tol := 1e-12 * (1 + math.Abs(vals[k[0]]) + math.Abs(vals[k[1]]) + math.Abs(vals[k[2]]) + math.Abs(vals[k[3]]))
					x.Check(math.Abs(c.Sum-sum) <= tol && math.Abs(c.Avg-sum/4) <= tol, "values %v: sum %v, average %v; must be %v, %v", k, c.Sum, c.Avg, sum, sum/4)
					x.Cases++
				})
			}},
			{Name: "first use", Recent: 1, Cfg: Config{Pkgs: []string{"scouterx/counter"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				boot("", "scouterx/strace")
				verifreg.Reset("scouterx/counter")
				vsched.Explore(true)
				par(func() { counter.GetServiceMeter().Add(100, false) }, func() { counter.GetServiceMeter().Add(200, true) }, func() { counter.GetServiceMeter().Add(600, false) })
				vsched.Explore(false)
				c := counter.GetServiceMeter().GetAllCounter(30)
				x.Check(near(float64(c.Tps)*30, 3) && c.Elapsed == 300 && near(float64(c.ErrorRate), 100.0/3), "3 services at the first use of the meter: %v services/s, %d ms, %v %% errors", c.Tps, c.Elapsed, c.ErrorRate)
			}},
			{Name: "concurrent", Cfg: Config{Pkgs: []string{"scouterx/counter"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				boot("", "scouterx/strace")
				m := counter.GetServiceMeter()
				vsched.Sleep(900 * ms)
				m.Add(1000, false)
				started, ended := []int{}, []int{}
				els := []int{100, 200, 400}
				add := func(i int) func() {
					return func() {
						started = append(started, i)
						m.Add(els[i], i == 1)
						ended = append(ended, i)
					}
				}
				set := vsched.Choose(3, "threads")
				ask := func() {
					before := append([]int{}, ended...)
					c := m.GetAllCounter(30)
					after := append([]int{}, started...)
					// the answer must be that of a set of services between before and after
					for mask := 0; mask < 8; mask++ {
						n, sum, errs := 1, 1000, 0
						ok := true
						for i := 0; i < 3; i++ {
							in := mask>>uint(i)&1 == 1
							if in {
								n++
								sum += els[i]
								if i == 1 {
									errs++
								}
							}
							if in && !has(after, i) || !in && has(before, i) {
								ok = false
							}
						}
						if ok && near(float64(c.Tps)*30, float64(n)) && c.Elapsed == sum/n && near(float64(c.ErrorRate), float64(errs)*100/float64(n)) {
							x.Observe("%d", mask)
							return
						}
					}
					x.Failf("%v services/s, %d ms, %v %% errors fit no set of services between %v and %v", c.Tps, c.Elapsed, c.ErrorRate, before, after)
				}
				tick := func() { advance(1000 * ms) }
				vsched.Explore(true)
				switch set {
				case 0:
					par(add(0), add(1), ask)
				case 1:
					par(add(0), tick, ask)
				case 2:
					par(func() { tick(); add(0)() }, add(1), func() { add(2)(); ask() })
				}
				vsched.Explore(false)
				ask()
				advance(1000 * ms)
				ask()
				advance(27000 * ms)
				ask()
			}},
			{Name: "concurrent values", Cfg: Config{Pkgs: []string{"scouterx/counter"}}, MaxCost: 2, Deep: 3, Body: func(x *X) {
				boot("", "scouterx/strace")
				m := counter.NewValueMeter()
				vsched.Explore(true)
				var c *counter.ValueMetric
				par(func() { m.Add(1) }, func() { advance(1000 * ms); m.Add(2) }, func() { c = m.GetAllCounter(30) })
				vsched.Explore(false)
				ok := c.Sum == 0 && c.Avg == 0 || c.Sum == 1 && c.Avg == 1 || c.Sum == 2 && c.Avg == 2 || c.Sum == 3 && c.Avg == 1.5
				x.Check(ok, "sum %v, average %v while 1 and 2 are added", c.Sum, c.Avg)
				x.Observe("%v", c.Sum)
				c = m.GetAllCounter(30)
				x.Check(c.Sum == 3 && c.Avg == 1.5, "sum %v, average %v after 1 and 2 were added", c.Sum, c.Avg)
			}},
		}})
}

func has(l []int, i int) bool {
	for _, v := range l {
		if v == i {
			return true
		}
	}
	return false
}
