package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

// boundary values of a field
func fieldValues(t reflect.Type, full bool) (l []reflect.Value) {
	add := func(v interface{}) { l = append(l, reflect.ValueOf(v).Convert(t)) }
	switch t.Kind() {
	case reflect.Int64:
		for _, v := range edges() {
			if full || v == 1<<40+1 || v == -129 || v == 127 {
				add(v)
			}
		}
	case reflect.Int32:
		for _, v := range edges() {
			if v == int64(int32(v)) && (full || v == 1<<20+1 || v == -129 || v == 127) {
				add(int32(v))
			}
		}
	case reflect.Int8:
		for v := -128; v < 128; v++ {
			if full || v == -1 || v == 3 {
				add(int8(v))
			}
		}
	case reflect.Uint8:
		for v := 0; v < 256; v++ {
			if full || v == 1 || v == 200 {
				add(uint8(v))
			}
		}
	case reflect.Bool:
		add(true)
		add(false)
	case reflect.String:
		ns := []int{0, 5, 254}
		if full {
			ns = []int{0, 1, 127, 128, 253, 254, 255, 256, 1000, 65535, 65536, 100000, 100001}
		}
		for _, n := range ns {
			add(rep(n))
		}
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8:
			for _, n := range []int{0, 4, 253, 254, 65535, 65536, 70000} {
				if full || n == 4 || n == 254 {
					l = append(l, reflect.ValueOf([]byte(rep(n))))
				}
			}
		case reflect.Int32:
			l = append(l, reflect.ValueOf([]int32{}), reflect.ValueOf([]int32{1, -2, math.MaxInt32}), reflect.ValueOf(make([]int32, 1000)))
		}
	case reflect.Ptr: // map value
		for _, m := range []map[string]interface{}{{}, {"k": int64(5)}, {"a": "b", "c": []interface{}{float32(1), true}, "d": map[string]interface{}{"e": nil}}} {
			l = append(l, reflect.ValueOf(toValue(m)))
		}
	}
	return
}

type leafField struct {
	name string
	idx  []int
}

func leafFields(t reflect.Type, pre []int) (l []leafField) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		idx := append(append([]int{}, pre...), i)
		if f.Anonymous {
			l = append(l, leafFields(f.Type, idx)...)
		} else if f.PkgPath == "" {
			l = append(l, leafField{f.Name, idx})
		}
	}
	return
}

// everyField calls f for objects with every field at every boundary value, alone and in pairs, over two backgrounds.
func everyField(x *X, mk func() interface{}, f func(o interface{}, what string)) {
	t := reflect.TypeOf(mk()).Elem()
	fs := leafFields(t, nil)
	fill := func() interface{} { // every field a different value
		o := mk()
		v := reflect.ValueOf(o).Elem()
		for i, q := range fs {
			c := v.FieldByIndex(q.idx)
			switch c.Kind() {
			case reflect.Int64:
				c.SetInt(int64(1000000000000 + i))
			case reflect.Int32:
				c.SetInt(int64(100000 + i))
			case reflect.Int8:
				c.SetInt(int64(10 + i))
			case reflect.Uint8:
				c.SetUint(uint64(1 + i))
			case reflect.Bool:
				c.SetBool(i%2 == 0)
			case reflect.String:
				c.SetString(fmt.Sprint("text", i))
			case reflect.Slice:
				if c.Type().Elem().Kind() == reflect.Uint8 {
					c.SetBytes([]byte{byte(i), 2, 3, 4})
				}
			}
		}
		return o
	}
	f(mk(), "defaults")
	f(fill(), "distinct")
	for bg, base := range []func() interface{}{mk, fill} {
		for i, a := range fs {
			if !x.Mine() {
				continue
			}
			for _, va := range fieldValues(t.FieldByIndex(a.idx).Type, true) {
				o := base()
				reflect.ValueOf(o).Elem().FieldByIndex(a.idx).Set(va)
				f(o, a.name)
			}
			for _, va := range fieldValues(t.FieldByIndex(a.idx).Type, true) {
				for _, b := range fs[i+1:] {
					for _, vb := range fieldValues(t.FieldByIndex(b.idx).Type, x.Deep()) {
						o := base()
						v := reflect.ValueOf(o).Elem()
						v.FieldByIndex(a.idx).Set(va)
						v.FieldByIndex(b.idx).Set(vb)
						x.Alive()
						f(o, a.name+" and "+b.name)
					}
				}
			}
			x.States++
			_ = bg
		}
	}
}

func same(x *X, kind, what string, got, want interface{}, err error, left int, b []byte) {
	if err != nil || left != 0 || !reflect.DeepEqual(got, want) {
		x.Failf("%s with %s: the collector reads %s, written was %s (%v, %d bytes left) from %x", kind, what, diff(got, want), short(reflect.TypeOf(want)), err, left, head(b))
	}
	x.Cases++
}

// diff names the fields in which two structs differ.
func diff(a, b interface{}) string {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Ptr && vb.Kind() == reflect.Ptr && !va.IsNil() && !vb.IsNil() {
		va, vb = va.Elem(), vb.Elem()
	}
	if va.Kind() != reflect.Struct || vb.Kind() != reflect.Struct || va.Type() != vb.Type() {
		return short(a) + " instead of " + short(b)
	}
	s := ""
	for i := 0; i < va.NumField(); i++ {
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			s += fmt.Sprintf("%s=%s instead of %s ", va.Type().Field(i).Name, short(va.Field(i).Interface()), short(vb.Field(i).Interface()))
		}
	}
	return s
}

func cs(s string) string { return clip(s).(string) }

func refXLog(p *netdata.XlogPack) *wXLog {
	ip := p.Ipaddr
	if ip == nil {
		ip = []byte{}
	}
	return &wXLog{EndTime: p.EndTime, ObjHash: p.ObjHash, Service: p.Service, Txid: p.Txid, Caller: p.Caller, Gxid: p.Gxid,
		Elapsed: p.Elapsed, Error: p.Error, Cpu: p.Cpu, SqlCount: p.SqlCount, SqlTime: p.SqlTime, Ip: ip, Kbytes: p.Kbytes, Status: p.Status,
		Userid: p.Userid, UserAgent: p.UserAgent, Referer: p.Referer, Group: p.Group, ApicallCount: p.ApicallCount, ApicallTime: p.ApicallTime,
		CountryCode: cs(p.CountryCode), City: p.City, XType: int(p.XType), Login: p.Login, Desc: p.Desc, WebHash: p.WebHash, WebTime: p.WebTime,
		HasDump: int(p.HasDump), ThreadName: p.ThreadNameHash, Text1: cs(p.Text1), Text2: cs(p.Text2), QHost: p.QueuingHostHash, QTime: p.QueuingTime,
		Q2Host: p.Queuing2ndHostHash, Q2Time: p.Queuing2ndTime, Text3: cs(p.Text3), Text4: cs(p.Text4), Text5: cs(p.Text5),
		ProfileCount: p.ProfileCount, B3: p.B3Mode, ProfileSize: p.ProfileSize, Discard: int(p.DiscardType), IgnoreGlobal: p.IgnoreGlobalConsequentSampling}
}

func refStep(o netdata.Step) wStep {
	w := wStep{Type: int(o.GetStepType())}
	base := func(s netdata.SingleStep) { w.Parent, w.Index, w.Start = s.Parent, s.Index, s.StartTime }
	switch s := o.(type) {
	case *netdata.MethodStep:
		base(s.SingleStep)
		w.Type, w.Hash, w.Elapsed, w.Cpu = 1, s.Hash, s.Elapsed, s.CpuTime
	case *netdata.MessageStep:
		base(s.SingleStep)
		w.Type, w.Text = 3, cs(s.Message)
	case *netdata.ApiCallStep:
		base(s.SingleStep)
		w.Type, w.Txid, w.Hash, w.Elapsed, w.Cpu, w.Err, w.Opt = 6, s.Txid, s.Hash, s.Elapsed, s.CpuTime, s.Error, int(s.Opt)
		if s.Opt == 1 {
			w.Addr = cs(s.Address)
		}
	case *netdata.HashedMessageStep:
		base(s.SingleStep)
		w.Type, w.Hash, w.Elapsed, w.Value = 9, s.Hash, s.Time, s.Value
	case *netdata.DumpStep:
		base(s.SingleStep)
		w.Type, w.Longs, w.Strs = 12, []int64{0, 0}, []string{"", "", "", ""}
		if len(s.Stacks) > 0 {
			w.Stacks = s.Stacks
		}
	case *netdata.AsyncServiceStep:
		base(s.SingleStep)
		w.Type, w.Txid, w.Hash, w.Elapsed, w.Opt = 14, s.Txid, s.Hash, s.Elapsed, 1
	case *netdata.PMessageStep:
		base(s.SingleStep)
		w.Type, w.Hash, w.Elapsed, w.Level = 17, s.Hash, s.Elapsed, int32(s.Level)
	}
	return w
}

var stepMakers = []struct {
	name string
	mk   func() interface{}
}{
	{"method step", func() interface{} { return netdata.NewMethodStep() }},
	{"message step", func() interface{} { return netdata.NewMessageStep("", 0) }},
	{"api call step", func() interface{} { return netdata.NewApiCallStep() }},
	{"hashed message step", func() interface{} { return netdata.NewHashedMessageStep(0, 0) }},
	{"dump step", func() interface{} { return netdata.NewDumpStep() }},
	{"async service step", func() interface{} { return netdata.NewAsyncServiceStep() }},
	{"parameterized message step", func() interface{} { return netdata.NewPMessageStep(0) }},
}

func init() {
	pack := func(name string, mk func() interface{}, ref func(o interface{}) interface{}, dec func(r *rd) interface{}, reread func(b []byte) (interface{}, error)) Scenario {
		return Scenario{Name: name, Whole: true, Body: func(x *X) {
			boot("", "scouterx/common/netdata")
			everyField(x, mk, func(o interface{}, what string) {
				b := packBytes(o.(netdata.Pack))
				r := &rd{b: b}
				g := dec(r)
				same(x, name, what, g, ref(o), r.err, r.left(), b)
				if reread != nil {
					q, err := reread(b)
					if err != nil || q == nil || !reflect.DeepEqual(ref(q), ref(o)) {
						x.Failf("%s with %s is read back as %s (%v)", name, what, diff(ref(q), ref(o)), err)
					}
				}
			})
		}}
	}
	plain := func(r *rd) interface{} { return r.pack() }
	readPack := func(b []byte) (interface{}, error) {
		p, err := netdata.NewDataInputX(b).ReadPack()
		return p, err
	}
	mapv := func(m *netdata.MapValue) map[string]interface{} { return fromTable(m.Table) }
	register(&Property{ID: "C16",
		Bounds:      "every field of every pack and every profile step at all integer values within 2 of a power of two, all bytes, texts at the length code boundaries; all pairs of fields, one at all of these, the other at selected values (thorough: both at all), over an empty and an all-different background; all sequences of up to 5 (thorough: 6) steps; all parameter lists of up to 3 over 4 texts",
		Assumptions: []string{"stacks of a dump step have fewer than 32768 entries"},
		QuickSec:    90, DeepSec: 600,
		Scenarios: []Scenario{
			pack("xlog", func() interface{} { return netdata.NewXlogPack() }, func(o interface{}) interface{} { return refXLog(o.(*netdata.XlogPack)) }, plain, nil),
			pack("profile", func() interface{} { return netdata.NewXlogProfilePack() }, func(o interface{}) interface{} {
				p := o.(*netdata.XlogProfilePack)
				return []interface{}{p.Time, p.ObjHash, p.Service, p.Txid, string(p.Profile)}
			}, func(r *rd) interface{} {
				r.u8()
				return []interface{}{r.dec(), r.d32(), r.d32(), r.i64(), string(r.blob())}
			}, nil),
			pack("text", func() interface{} { return netdata.NewTextPack() }, func(o interface{}) interface{} {
				p := o.(*netdata.TextPack)
				return &wText{cs(string(p.Xtype)), p.Hash, cs(p.Text)}
			}, plain, nil),
			pack("alert", func() interface{} { return netdata.NewAlertPack() }, func(o interface{}) interface{} {
				p := o.(*netdata.AlertPack)
				return &wAlert{p.Time, int(p.Level), cs(p.ObjType), p.ObjHash, cs(p.Title), cs(p.Message), mapv(p.Tags)}
			}, plain, nil),
			pack("counters", func() interface{} { return netdata.NewPerfCounterPack() }, func(o interface{}) interface{} {
				p := o.(*netdata.PerfCounterPack)
				return &wPerf{p.Time, cs(p.ObjName), p.Timetype, mapv(p.Data)}
			}, plain, readPack),
			pack("kubernetes counters", func() interface{} { return netdata.NewPerfCounterK8SPack() }, func(o interface{}) interface{} {
				p := o.(*netdata.PerfCounterK8SPack)
				return &wK8S{p.Time, [9]string{cs(p.SiteID), cs(p.Cluster), cs(p.NameSpace), cs(p.NodeName), cs(p.DaemonSetName), cs(p.DeploymentName), cs(p.PodName), cs(p.ContainerName), cs(p.ObjName)}, p.Timetype, p.MetricLevel, mapv(p.Data)}
			}, plain, func(b []byte) (interface{}, error) {
				p := netdata.NewPerfCounterK8SPack()
				_, err := p.Read(netdata.NewDataInputX(b[1:]))
				return p, err
			}),
			pack("object", func() interface{} { return netdata.NewObjectPack() }, func(o interface{}) interface{} {
				p := o.(*netdata.ObjectPack)
				return &wObj{Type: cs(p.ObjType), Hash: p.ObjHash, Name: cs(p.ObjName), Addr: cs(p.Address), Version: cs(p.Version), Alive: p.Alive, Wakeup: p.Wakeup, Tags: mapv(p.Tags)}
			}, plain, func(b []byte) (interface{}, error) {
				p := netdata.NewObjectPack()
				_, err := p.Read(netdata.NewDataInputX(b[1:]))
				return p, err
			}),
			pack("object2", func() interface{} { return netdata.NewObjectPack2() }, func(o interface{}) interface{} {
				p := o.(*netdata.ObjectPack2)
				return &wObj{SiteID: cs(p.SiteID), Type: cs(p.ObjType), Hash: p.ObjHash, Name: cs(p.ObjName), Addr: cs(p.Address), Version: cs(p.Version), Alive: p.Alive, Wakeup: p.Wakeup, Family: p.Family, Tags: mapv(p.Tags)}
			}, func(r *rd) interface{} {
				r.u8()
				return r.object2()
			}, readPack),
			{Name: "pack types", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				for want, p := range map[int]netdata.Pack{10: netdata.NewMapPack(), 21: netdata.NewXlogPack(), 26: netdata.NewXlogProfilePack(), 50: netdata.NewTextPack(), 60: netdata.NewPerfCounterPack(), 65: netdata.NewPerfCounterK8SPack(), 70: netdata.NewAlertPack(), 80: netdata.NewObjectPack()} {
					if int(p.GetPackType()) != want || int(packBytes(p)[0]) != want {
						x.Failf("%T has pack type %d and starts with %d, must be %d", p, p.GetPackType(), packBytes(p)[0], want)
					}
					x.Cases++
				}
				o, o2 := netdata.NewObjectPack(), netdata.NewObjectPack2()
				o.SetStatus(7)
				o2.SetStatus(8)
				r, r2 := &rd{b: packBytes(o)}, &rd{b: packBytes(o2)[1:]}
				p, ok := r.pack().(*wObj)
				p2 := r2.object2()
				if !ok || r.err != nil || r2.err != nil || !eq(p.Tags["status"], int64(7)) || !eq(p2.Tags["status"], int64(8)) || !p.Alive || !p2.Alive || p2.SiteID != "Default" {
					x.Failf("status or defaults of the object packs are wrong: %v %v", p, p2)
				}
			}},
			{Name: "counter values", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				type put struct{ v, want interface{} }
				l := []put{{"", ""}, {"text", "text"}, {true, true}, {false, false}, {float32(1.5), float32(1.5)}, {float64(2.25), float32(2.25)}, {toValue(ip4{1, 2, 3, 4}), ip4{1, 2, 3, 4}}, {toValue([]interface{}{int64(1)}), []interface{}{int64(1)}}}
				for _, v := range edges() {
					l = append(l, put{v, v}, put{int32(v), int64(int32(v))}, put{int(v), v}, put{uint32(v), int64(uint32(v))})
					if v >= 0 {
						l = append(l, put{uint64(v), v})
					}
				}
				for _, p := range l {
					if !x.Mine() {
						continue
					}
					a, k := netdata.NewPerfCounterPack(), netdata.NewPerfCounterK8SPack()
					a.Put("k", p.v)
					k.Put("k", p.v)
					ra, rk := &rd{b: packBytes(a)}, &rd{b: packBytes(k)}
					ga, ok1 := ra.pack().(*wPerf)
					gk, ok2 := rk.pack().(*wK8S)
					if !ok1 || !ok2 || !eq(ga.Data, map[string]interface{}{"k": p.want}) || !eq(gk.Data, map[string]interface{}{"k": p.want}) {
						x.Failf("counter %s arrives as %s and %s", short(p.v), short(ga.Data), short(gk.Data))
					}
					x.Cases++
				}
			}},
			{Name: "steps", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				for _, m := range stepMakers {
					everyField(x, m.mk, func(o interface{}, what string) {
						s := o.(netdata.Step)
						out := netdata.NewDataOutputX(nil)
						out.WriteStep(s)
						r := &rd{b: out.Bytes()}
						g := r.step()
						same(x, m.name, what, g, refStep(s), r.err, r.left(), out.Bytes())
						if s.GetParent() != g.Parent || s.GetOrder() != g.Index {
							x.Failf("%s with %s: parent %d, index %d", m.name, what, s.GetParent(), s.GetOrder())
						}
						s.SetParent(g.Parent + 3)
						s.SetIndex(g.Index + 5)
						q := (&rd{b: netdata.StepsToBytes([]netdata.Step{s})}).step()
						if q.Parent != g.Parent+3 || q.Index != g.Index+5 {
							x.Failf("%s with %s: parent and index cannot be set", m.name, what)
						}
					})
				}
			}},
			{Name: "step sequences", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				n := 5
				if x.Deep() {
					n = 6
				}
				if b := netdata.StepsToBytes(nil); len(b) != 0 {
					x.Failf("no steps are written as %x", b)
				}
				var rec func(l []netdata.Step, want []wStep)
				rec = func(l []netdata.Step, want []wStep) {
					b := netdata.StepsToBytes(l)
					r := &rd{b: b}
					got := r.steps()
					if r.err != nil || len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
						x.Failf("steps %v are written as %x (%v)", want, head(b), r.err)
					}
					x.Cases++
					if len(want) == n {
						return
					}
					for k := -1; k < len(stepMakers); k++ {
						if len(want) == 1 && !x.Mine() {
							continue
						}
						if k < 0 {
							if len(l) < n {
								rec(append(append([]netdata.Step{}, l...), nil), want)
							}
							continue
						}
						s := stepMakers[k].mk().(netdata.Step)
						s.SetIndex(int32(len(want)))
						s.SetParent(int32(len(want)) - 1)
						rec(append(append([]netdata.Step{}, l...), s), append(append([]wStep{}, want...), refStep(s)))
					}
				}
				rec([]netdata.Step{}, nil)
			}},
			{Name: "message parameters", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				texts := []string{"", "a", "b c", "한글"}
				for n := 0; n <= 3; n++ {
					total := 1
					for i := 0; i < n; i++ {
						total *= len(texts)
					}
					for c := 0; c < total; c++ {
						if !x.Mine() {
							continue
						}
						var ps []string
						want := ""
						for i, k := 0, c; i < n; i, k = i+1, k/len(texts) {
							ps = append(ps, texts[k%len(texts)])
							want += texts[k%len(texts)] + "\x03"
						}
						for lv := 0; lv < 5; lv++ {
							s := netdata.NewPMessageStep(17)
							s.SetMessage(-77, ps...)
							s.Level = netdata.PMessageLevel(lv)
							s.Elapsed = 9
							g := (&rd{b: netdata.StepsToBytes([]netdata.Step{s})}).step()
							if g.Text != want || g.Hash != -77 || g.Level != int32(lv) || g.Start != 17 || g.Elapsed != 9 || g.Type != 17 {
								x.Failf("parameters %q arrive as %+v", ps, g)
							}
							x.Cases++
						}
					}
				}
			}},
		}})
}
