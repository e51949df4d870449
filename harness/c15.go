package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

// toValue builds the target's value for a description, fromValue describes a target value.
func toValue(v interface{}) netdata.Value {
	switch t := v.(type) {
	case nil:
		return netdata.NewNilValue()
	case bool:
		return netdata.NewBooleanValue(t)
	case int64:
		return netdata.NewDecimalValue(t)
	case float32:
		return netdata.NewFloatValue(t)
	case float64:
		return netdata.NewDoubleValue(t)
	case string:
		return netdata.NewTextValue(t)
	case textHash:
		return netdata.NewTextHashValue(int32(t))
	case []byte:
		return netdata.NewBlobValue(t)
	case ip4:
		return netdata.NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", t[0], t[1], t[2], t[3]))
	case []interface{}:
		l := netdata.NewListValue()
		for _, e := range t {
			l.Add(toValue(e))
		}
		return l
	case map[string]interface{}:
		m := netdata.NewMapValue()
		for k, e := range t {
			m.Put(k, toValue(e))
		}
		return m
	}
	panic(fmt.Sprintf("harness: %T", v))
}

func fromValue(v netdata.Value) interface{} {
	switch t := v.(type) {
	case *netdata.NilValue:
		return nil
	case *netdata.BooleanValue:
		return t.Value
	case *netdata.DecimalValue:
		return t.Value
	case *netdata.Float32Value:
		return t.Value
	case *netdata.DoubleValue:
		return t.Value
	case *netdata.TextValue:
		return t.Value
	case *netdata.TextHashValue:
		return textHash(t.Value)
	case *netdata.BlobValue:
		if t.Value == nil {
			return []byte{}
		}
		return t.Value
	case *netdata.Ip4Value:
		var a ip4
		if len(t.Value) != 4 {
			return fmt.Sprintf("ip address of %d bytes", len(t.Value))
		}
		copy(a[:], t.Value)
		return a
	case *netdata.ListValue:
		l := []interface{}{}
		for _, e := range t.Value {
			l = append(l, fromValue(e))
		}
		return l
	case *netdata.MapValue:
		return fromTable(t.Table)
	}
	return fmt.Sprintf("unknown value %T", v)
}

func fromTable(t map[string]netdata.Value) map[string]interface{} {
	m := map[string]interface{}{}
	for k, e := range t {
		m[k] = fromValue(e)
	}
	return m
}

// clip is what a reader gets for a description: texts over the limit are replaced.
func clip(v interface{}) interface{} {
	switch t := v.(type) {
	case string:
		if len(t) > 100000 {
			return "huge string omitted..."
		}
	case []interface{}:
		l := []interface{}{}
		for _, e := range t {
			l = append(l, clip(e))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range t {
			m[clip(k).(string)] = clip(e)
		}
		return m
	}
	return v
}

func short(v interface{}) string {
	s := fmt.Sprintf("%T %#v", v, v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// onePath tells that all maps have at most one key, so that there is one encoding.
func onePath(v interface{}) bool {
	switch t := v.(type) {
	case []interface{}:
		for _, e := range t {
			if !onePath(e) {
				return false
			}
		}
	case map[string]interface{}:
		if len(t) > 1 {
			return false
		}
		for _, e := range t {
			return onePath(e)
		}
	}
	return true
}

// checkValue writes a value, compares the bytes with the reference and reads it back.
func checkValue(x *X, v interface{}) []byte {
	want := clip(v)
	out := netdata.NewDataOutputX(nil)
	out.WriteValue(toValue(v))
	b := out.Bytes()
	if int(out.Size()) != len(b) || int(out.GetWriteSize()) != len(b) {
		x.Failf("%s: %d bytes written, size says %d", short(v), len(b), out.Size())
	}
	if onePath(v) {
		if w := (&wr{}).value(v); !bytes.Equal(w.b, b) {
			x.Failf("%s is written as %x, must be %x", short(v), head(b), head(w.b))
		}
	}
	r := &rd{b: b}
	if got := r.value(); r.err != nil || r.left() != 0 || !eq(got, want) {
		x.Failf("%s is written as %x, which means %s (%v, %d left)", short(v), head(b), short(got), r.err, r.left())
	}
	in := netdata.NewDataInputX(append(append([]byte{}, b...), 0x5a))
	got, err := in.ReadValue()
	if err != nil || !eq(fromValue(got), want) {
		x.Failf("%s is read back as %s (%v)", short(v), short(fromValue(got)), err)
	}
	if s, err := in.ReadUInt8(); err != nil || s != 0x5a {
		x.Failf("%s: reading does not stop behind the value: %x %v", short(v), s, err)
	}
	x.Cases++
	return b
}

func head(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func rep(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return string(b)
}

// edges are the integers around all powers of two.
func edges() (l []int64) {
	for k := 0; k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			l = append(l, int64(1)<<uint(k)+d, -(int64(1)<<uint(k))+d)
		}
	}
	return
}

// trees are all values of at most n nodes made of the leaves, lists and maps.
func trees(n int, leaves []interface{}) []interface{} {
	memo := map[int][]interface{}{}
	var exact func(k int) []interface{}
	var seqs func(k int) [][]interface{}
	seqMemo := map[int][][]interface{}{0: {{}}}
	seqs = func(k int) [][]interface{} {
		if s, ok := seqMemo[k]; ok {
			return s
		}
		var out [][]interface{}
		for first := 1; first <= k; first++ {
			for _, f := range exact(first) {
				for _, rest := range seqs(k - first) {
					out = append(out, append([]interface{}{f}, rest...))
				}
			}
		}
		seqMemo[k] = out
		return out
	}
	exact = func(k int) []interface{} {
		if s, ok := memo[k]; ok {
			return s
		}
		var out []interface{}
		if k == 1 {
			out = append(out, leaves...)
		}
		for _, s := range seqs(k - 1) {
			out = append(out, append([]interface{}{}, s...))
			m := map[string]interface{}{}
			for i, e := range s {
				m[[]string{"", "k", "키", "long key"}[i%4]] = e
			}
			out = append(out, m)
		}
		memo[k] = out
		return out
	}
	var all []interface{}
	for k := 1; k <= n; k++ {
		all = append(all, exact(k)...)
	}
	return all
}

var leaves = []interface{}{nil, true, false, int64(0), int64(-1), int64(300), int64(-40000), int64(1) << 40, float32(1.5), math.Inf(-1), "", "a", "한글", textHash(-7), []byte{}, []byte{0, 255}, ip4{127, 0, 0, 1}}

// primitive operations: written, expected on the wire, read back
type primOp struct {
	name string
	wr   func(o *netdata.DataOutputX)
	ref  func(w *wr)
	rd   func(in *netdata.DataInputX) (interface{}, error)
	want interface{}
}

func prims() (l []primOp) {
	add := func(name string, w func(o *netdata.DataOutputX), ref func(w *wr), r func(in *netdata.DataInputX) (interface{}, error), want interface{}) {
		l = append(l, primOp{name, w, ref, r, want})
	}
	for _, v := range []int8{0, 1, -1, 127, -128} {
		v := v
		add(fmt.Sprint("int8 ", v), func(o *netdata.DataOutputX) { o.WriteInt8(v) }, func(w *wr) { w.u8(int(uint8(v))) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt8() }, v)
	}
	for _, v := range []uint8{0, 128, 255} {
		v := v
		add(fmt.Sprint("uint8 ", v), func(o *netdata.DataOutputX) { o.WriteUInt8(v) }, func(w *wr) { w.u8(int(v)) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadUInt8() }, v)
	}
	for _, v := range []int16{0, 0x0102, -2, math.MaxInt16, math.MinInt16} {
		v := v
		add(fmt.Sprint("int16 ", v), func(o *netdata.DataOutputX) { o.WriteInt16(v) }, func(w *wr) { w.u16(int(uint16(v))) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt16() }, v)
	}
	for _, v := range []int32{0, 0x01020304, -3, math.MaxInt32, math.MinInt32} {
		v := v
		add(fmt.Sprint("int32 ", v), func(o *netdata.DataOutputX) { o.WriteInt32(v) }, func(w *wr) { w.i32(v) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt32() }, v)
	}
	for _, v := range []int64{0, 0x0102030405060708, -4, math.MaxInt64, math.MinInt64} {
		v := v
		add(fmt.Sprint("int64 ", v), func(o *netdata.DataOutputX) { o.WriteInt64(v) }, func(w *wr) { w.i64(v) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt64() }, v)
	}
	add("uint64", func(o *netdata.DataOutputX) { o.WriteUInt64(0xf1f2f3f4f5f6f7f8) }, func(w *wr) { w.i64(-0x0e0d0c0b0a090808) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt64() }, int64(-0x0e0d0c0b0a090808))
	for _, v := range []float32{0, 1.25, -3e38, float32(math.Inf(1)), math.Float32frombits(0x80000000)} {
		v := v
		add(fmt.Sprint("float32 ", v), func(o *netdata.DataOutputX) { o.WriteFloat32(v) }, func(w *wr) { w.i32(int32(math.Float32bits(v))) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadFloat32() }, v)
	}
	for _, v := range []float64{0, 1.25, -3e300, math.Inf(1), math.NaN()} {
		v := v
		add(fmt.Sprint("float64 ", v), func(o *netdata.DataOutputX) { o.WriteFloat64(v) }, func(w *wr) { w.i64(int64(math.Float64bits(v))) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadFloat64() }, v)
	}
	for _, v := range []int64{0, 1, -1, 127, 128, -128, -129, 32767, 32768, -32769, 1 << 31, -(1 << 31), -(1 << 31) - 1, math.MaxInt64, math.MinInt64} {
		v := v
		add(fmt.Sprint("decimal ", v), func(o *netdata.DataOutputX) { o.WriteDecimal(v) }, func(w *wr) { w.dec(v) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadDecimal() }, v)
	}
	for _, v := range []int32{0, 127, -129, 40000, math.MinInt32} {
		v := v
		add(fmt.Sprint("decimal32 ", v), func(o *netdata.DataOutputX) { o.WriteDecimal32(v) }, func(w *wr) { w.dec(int64(v)) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadDecimal() }, int64(v))
	}
	for _, v := range []bool{true, false} {
		v := v
		add(fmt.Sprint("boolean ", v), func(o *netdata.DataOutputX) { o.WriteBoolean(v) }, func(w *wr) { w.boolean(v) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadBoolean() }, v)
	}
	for _, n := range []int{0, 1, 253, 254, 255, 256, 65535, 65536, 100000} {
		n := n
		s := rep(n)
		add(fmt.Sprint("string ", n), func(o *netdata.DataOutputX) { o.WriteString(s) }, func(w *wr) { w.str(s) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadString() }, s)
		add(fmt.Sprint("blob ", n), func(o *netdata.DataOutputX) { o.WriteBlob([]byte(s)) }, func(w *wr) { w.blob([]byte(s)) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadBlob() }, []byte(s))
		add(fmt.Sprint("intbytes ", n), func(o *netdata.DataOutputX) { o.WriteIntBytes([]byte(s)) }, func(w *wr) { w.i32(int32(n)).raw([]byte(s)) }, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadIntBytes() }, []byte(s))
		add(fmt.Sprint("raw ", n), func(o *netdata.DataOutputX) { o.Write([]byte(s)) }, func(w *wr) { w.raw([]byte(s)) }, func(in *netdata.DataInputX) (interface{}, error) { return in.Read(int32(n)) }, []byte(s))
	}
	for _, v := range [][]int32{nil, {}, {5, -6, 1 << 30}} {
		v := v
		add(fmt.Sprint("array ", v), func(o *netdata.DataOutputX) { o.WriteInt32Array(v) }, func(w *wr) {
			w.u16(len(v))
			for _, e := range v {
				w.i32(e)
			}
		}, func(in *netdata.DataInputX) (interface{}, error) {
			n, err := in.ReadInt16()
			var l []interface{}
			for i := int16(0); i < n && err == nil; i++ {
				var e int32
				e, err = in.ReadInt32()
				l = append(l, int64(e))
			}
			return fmt.Sprint(l), err
		}, fmt.Sprint(ints(v)))
	}
	for _, v := range []interface{}{nil, true, "t", []interface{}{int64(1), "x"}, map[string]interface{}{"k": float32(2)}} {
		v := v
		add("value "+short(v), func(o *netdata.DataOutputX) { o.WriteValue(toValue(v)) }, func(w *wr) { w.value(v) }, func(in *netdata.DataInputX) (interface{}, error) {
			r, err := in.ReadValue()
			return fromValue(r), err
		}, v)
	}
	add("untyped nil value", func(o *netdata.DataOutputX) { o.WriteValue(nil) }, func(w *wr) { w.value(nil) }, func(in *netdata.DataInputX) (interface{}, error) {
		r, err := in.ReadValue()
		return fromValue(r), err
	}, nil)
	return
}

func ints(v []int32) (l []interface{}) {
	for _, e := range v {
		l = append(l, int64(e))
	}
	return
}

func init() {
	bound := func(x *X, q, d int) int {
		if x.Deep() {
			return d
		}
		return q
	}
	register(&Property{ID: "C15",
		Bounds:      "integers: all 26 bit (thorough: 28 bit) numbers and all within 2 of a power of two, all non-minimal encodings of 1 to 5 and 8 bytes at the bit boundaries; texts and byte strings of every length to 700 and around 65535 and 100000; all float bit patterns of a 12 bit grid; all value trees of up to 5 nodes over 17 leaves and also of 6 over 6 and of 7 (thorough: 8) over 2; all sequences of 2 (and of 3, without the long operands) of 88 primitive operations; every Go type put into maps",
		Assumptions: []string{"texts over 100000 bytes are replaced by a notice, by design of the protocol"},
		QuickSec:    90, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "integers", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				bits := uint(bound(x, 25, 27))
				const block = 1 << 12
				for lo := -(int64(1) << bits); lo < int64(1)<<bits; lo += block {
					if !x.Mine() {
						continue
					}
					out := netdata.NewDataOutputX(nil)
					w := &wr{}
					for v := lo; v < lo+block; v++ {
						out.WriteDecimal(v)
						out.WriteDecimal32(int32(v))
						w.dec(v).dec(v)
					}
					if !bytes.Equal(out.Bytes(), w.b) {
						x.Failf("integers from %d: encoding differs", lo)
					}
					in := netdata.NewDataInputX(out.Bytes())
					for v := lo; v < lo+block; v++ {
						a, e1 := in.ReadDecimal()
						b, e2 := in.ReadDecimal()
						if a != v || b != v || e1 != nil || e2 != nil {
							x.Failf("integer %d is read back as %d and %d (%v %v)", v, a, b, e1, e2)
						}
					}
					x.Cases += 2 * block
					x.States++
				}
				for _, v := range edges() {
					if !x.Mine() {
						continue
					}
					checkValue(x, v)
					// longer forms, as other implementations write them
					for _, n := range []int{1, 2, 3, 4, 5, 8} {
						sh := uint(64 - 8*n)
						t := v << sh >> sh
						w := &wr{}
						w.u8(n)
						for i := n - 1; i >= 0; i-- {
							w.u8(int(t >> uint(8*i)))
						}
						in := netdata.NewDataInputX(append(w.b, 0x5a))
						g, err := in.ReadDecimal()
						s, err2 := in.ReadUInt8()
						if g != t || err != nil || s != 0x5a || err2 != nil {
							x.Failf("integer %d in %d bytes is read as %d (%v)", t, n, g, err)
						}
						x.Cases++
					}
				}
			}},
			{Name: "lengths", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				var ns []int
				for n := 0; n <= 700; n++ {
					ns = append(ns, n)
				}
				for _, c := range []int{4096, 65535, 100000, 1 << 20} {
					for d := -2; d <= 2; d++ {
						ns = append(ns, c+d)
					}
				}
				ns = append(ns, 32767, 32768, 40000, 3<<20)
				for _, n := range ns {
					if !x.Mine() {
						continue
					}
					s := rep(n)
					checkValue(x, s)
					checkValue(x, []byte(s))
					checkValue(x, map[string]interface{}{s: s})
					checkValue(x, []interface{}{s, []byte(s), int64(7)})
					x.States++
				}
				for _, n := range []int{0, 1, 126, 127, 128, 255, 256, 32767, 32768, 40000} {
					if !x.Mine() {
						continue
					}
					l := []interface{}{}
					m := map[string]interface{}{}
					for i := 0; i < n; i++ {
						l = append(l, int64(i))
						m[fmt.Sprint("key", i)] = int64(-i)
					}
					checkValue(x, l)
					checkValue(x, m)
					x.States++
				}
				for _, d := range []int{1, 2, 10, 100, 500} {
					if !x.Mine() {
						continue
					}
					var v, w interface{} = "leaf", "leaf"
					for i := 0; i < d; i++ {
						v = []interface{}{v}
						w = map[string]interface{}{"k": w}
					}
					checkValue(x, v)
					checkValue(x, w)
				}
			}},
			{Name: "floats", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				for hi := 0; hi < 1<<12; hi++ {
					if !x.Mine() {
						continue
					}
					for _, lo := range []uint64{0, 1, 0x7ffff, 0x80000, 0xfffff} {
						checkValue(x, math.Float32frombits(uint32(hi)<<20|uint32(lo)))
						checkValue(x, math.Float64frombits(uint64(hi)<<52|lo<<32|lo))
					}
					x.States++
				}
				for i := 0; i < 32; i++ {
					checkValue(x, textHash(int32(1)<<uint(i)))
					checkValue(x, textHash(int32(1)<<uint(i)-1))
					checkValue(x, ip4{byte(i), byte(255 - i), byte(i * 8), byte(1 << uint(i%8))})
				}
			}},
			{Name: "trees", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				few := []interface{}{nil, int64(300), "", "한글", []byte{0, 255}, ip4{127, 0, 0, 1}}
				all := append(append(trees(5, leaves), trees(6, few)...), trees(7, few[1:3])...)
				if x.Deep() {
					all = append(all, trees(8, few[1:3])...)
				}
				for _, v := range all {
					if !x.Mine() {
						continue
					}
					checkValue(x, v)
					if m, ok := v.(map[string]interface{}); ok {
						// the same content as a pack
						p := netdata.NewMapPack()
						for k, e := range m {
							p.Put(k, toValue(e))
						}
						b := packBytes(p)
						r := &rd{b: b}
						if g, ok := r.pack().(wMap); !ok || r.err != nil || r.left() != 0 || !eq(map[string]interface{}(g), clip(v)) {
							x.Failf("pack of %s is written as %x", short(v), head(b))
						}
						q, err := netdata.NewDataInputX(b).ReadPack()
						if g, ok := q.(*netdata.MapPack); err != nil || !ok || !eq(fromTable(g.Table), v) {
							x.Failf("pack of %s is not read back", short(v))
						}
					}
					x.States++
				}
			}},
			{Name: "sequences", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				all := prims()
				check := func(ops ...primOp) {
					out := netdata.NewDataOutputX(nil)
					w := &wr{}
					name := ""
					for _, o := range ops {
						o.wr(out)
						o.ref(w)
						name += o.name + "; "
					}
					if !bytes.Equal(out.Bytes(), w.b) || int(out.Size()) != len(w.b) {
						x.Failf("%s: written as %x (size %d), must be %x", name, head(out.Bytes()), out.Size(), head(w.b))
					}
					var sink bytes.Buffer
					o2 := netdata.NewDataOutputX(&sink)
					for _, o := range ops {
						o.wr(o2)
					}
					if !bytes.Equal(sink.Bytes(), w.b) || int(o2.Size()) != len(w.b) {
						x.Failf("%s: written to a stream as %x", name, head(sink.Bytes()))
					}
					in := netdata.NewDataInputX(w.b)
					for _, o := range ops {
						g, err := o.rd(in)
						if err != nil || !eq(g, o.want) {
							x.Failf("%s: %s is read back as %s (%v)", name, o.name, short(g), err)
						}
					}
					if _, err := in.ReadInt8(); err == nil {
						x.Failf("%s: bytes left", name)
					}
					x.Cases++
				}
				var small []primOp
				for _, o := range all {
					w := &wr{}
					if o.ref(w); len(w.b) < 1000 {
						small = append(small, o)
					}
				}
				for _, a := range all {
					if !x.Mine() {
						continue
					}
					for _, b := range all {
						check(a, b)
					}
					x.States++
				}
				{
					for _, a := range small {
						if !x.Mine() {
							continue
						}
						for _, b := range small {
							for _, c := range small {
								check(a, b, c)
							}
						}
						x.States++
					}
				}
			}},
			{Name: "maps", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				type put struct {
					v    interface{}
					want interface{}
				}
				var l []put
				for _, v := range edges() {
					l = append(l, put{v, v}, put{int32(v), int64(int32(v))}, put{int(v), v}, put{int16(v), int64(int16(v))}, put{int8(v), int64(int8(v))}, put{uint16(v), int64(uint16(v))}, put{uint8(v), int64(uint8(v))})
					if v >= 0 {
						l = append(l, put{uint32(v), int64(uint32(v))}, put{uint64(v), v}, put{uint(v), v})
					}
				}
				l = append(l, put{"", ""}, put{"text", "text"}, put{true, true}, put{false, false}, put{float32(1.5), float32(1.5)}, put{float64(2.25), 2.25})
				for _, v := range leaves {
					l = append(l, put{toValue(v), v})
				}
				for _, p := range l {
					if !x.Mine() {
						continue
					}
					m := netdata.NewMapValue()
					mp := netdata.NewMapPack()
					m.Put("old", "stays")
					mp.Put("old", "stays")
					m.Put("k", "replaced")
					mp.Put("k", "replaced")
					m.Put("k", p.v)
					mp.Put("k", p.v)
					want := map[string]interface{}{"old": "stays", "k": p.want}
					if g := fromTable(m.Table); !eq(g, want) {
						x.Failf("%s put into a map value gives %s", short(p.v), short(g))
					}
					if g := fromTable(mp.Table); !eq(g, want) {
						x.Failf("%s put into a map pack gives %s", short(p.v), short(g))
					}
					out := netdata.NewDataOutputX(nil)
					out.WriteValue(m)
					v2, err := netdata.NewDataInputX(out.Bytes()).ReadValue()
					p2, err2 := netdata.NewDataInputX(packBytes(mp)).ReadPack()
					if err != nil || err2 != nil {
						x.Failf("%s in a map cannot be read: %v %v", short(p.v), err, err2)
					}
					m2, mp2 := v2.(*netdata.MapValue), p2.(*netdata.MapPack)
					type getter interface {
						GetString(string) string
						GetBoolean(string) bool
						GetInt8(string) int8
						GetInt16(string) int16
						GetInt32(string) int32
						GetInt64(string) int64
						IsEmpty() bool
					}
					s, _ := p.want.(string)
					b, _ := p.want.(bool)
					n, _ := p.want.(int64)
					for i, g := range []getter{m, mp, m2, mp2} {
						if g.GetString("k") != s || g.GetBoolean("k") != b || g.GetInt8("k") != int8(n) || g.GetInt16("k") != int16(n) || g.GetInt32("k") != int32(n) || g.GetInt64("k") != n || g.GetString("old") != "stays" || g.GetString("none") != "" || g.GetInt64("none") != 0 || g.GetBoolean("none") || g.IsEmpty() {
							x.Failf("%s: getters of map %d disagree: %q %v %d", short(p.v), i, g.GetString("k"), g.GetBoolean("k"), g.GetInt64("k"))
						}
					}
					if !m2.ContainesKey("k") || m2.ContainesKey("none") || !mp2.ContainsKey("k") || mp2.ContainsKey("none") || len(mp2.Table) != 2 || !netdata.NewMapPack().IsEmpty() || !netdata.NewMapValue().IsEmpty() {
						x.Failf("%s: keys of the map are wrong", short(p.v))
					}
					// lists
					li := mp.NewList("list")
					switch t := p.v.(type) {
					case int64:
						li.AddInt64(t)
					case int32:
						li.AddInt32(t)
					case float32:
						li.AddFloat(t)
					case string:
						li.AddString(t)
					case bool:
						li.AddBoolean(t)
					case netdata.Value:
						li.Add(t)
					default:
						li.Add(toValue(p.want))
					}
					p3, err := netdata.NewDataInputX(packBytes(mp)).ReadPack()
					if err != nil {
						x.Failf("%s in a list cannot be read: %v", short(p.v), err)
					}
					l2, ok := p3.(*netdata.MapPack).Table["list"].(*netdata.ListValue)
					f, _ := p.want.(float32)
					for i, g := range []*netdata.ListValue{li, l2} {
						if !ok || g.Size() != 1 || !eq(fromValue(g), []interface{}{p.want}) || g.GetString(0) != s || g.GetBoolean(0) != b || g.GetInt32(0) != int32(n) || g.GetInt64(0) != n || math.Float32bits(g.GetFloat(0)) != math.Float32bits(f) {
							x.Failf("%s in list %d is %s", short(p.v), i, short(fromValue(g)))
						}
					}
					x.Cases++
					x.States++
				}
			}},
		}})
}
