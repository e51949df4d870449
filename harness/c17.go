package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

// pieces hands out its data in the given pieces, then an error.
type pieces struct {
	b    []byte
	cut  func(off int) int // length of the piece at off
	with bool              // the error comes together with the last piece
	err  error
	off  int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.off == len(p.b) {
		return 0, p.err
	}
	n := p.cut(p.off)
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.b)-p.off {
		n = len(p.b) - p.off
	}
	copy(b, p.b[p.off:p.off+n])
	p.off += n
	if p.with && p.off == len(p.b) {
		return n, p.err
	}
	return n, nil
}

// lenient tells that the reference is stricter than a reader must be.
func lenient(err error) bool {
	return err != nil && (strings.HasPrefix(err.Error(), "boolean") || strings.HasSuffix(err.Error(), "twice"))
}

type decodeResult struct {
	v   interface{}
	err error
}

// decodeValue reads one value with the target.
func decodeValue(r io.Reader) decodeResult {
	v, err := netdata.NewDataInputX(r).ReadValue()
	if err != nil {
		return decodeResult{nil, err}
	}
	return decodeResult{fromValue(v), nil}
}

// describePack describes the packs that can be read.
func describePack(p netdata.Pack) interface{} {
	switch t := p.(type) {
	case *netdata.MapPack:
		return fromTable(t.Table)
	case *netdata.PerfCounterPack:
		return []interface{}{t.Time, t.ObjName, int64(t.Timetype), fromTable(t.Data.Table)}
	case *netdata.PerfCounterK8SPack:
		return []interface{}{t.Time, t.SiteID, t.Cluster, t.NameSpace, t.NodeName, t.DaemonSetName, t.DeploymentName, t.PodName, t.ContainerName, t.ObjName, int64(t.Timetype), int64(t.MetricLevel), fromTable(t.Data.Table)}
	case *netdata.ObjectPack2:
		return []interface{}{t.SiteID, t.ObjType, int64(t.ObjHash), t.ObjName, t.Address, t.Version, t.Alive, t.Wakeup, int64(t.Family), fromTable(t.Tags.Table)}
	case *netdata.ObjectPack:
		return []interface{}{t.ObjType, int64(t.ObjHash), t.ObjName, t.Address, t.Version, t.Alive, t.Wakeup, fromTable(t.Tags.Table)}
	}
	return fmt.Sprintf("%T", p)
}

type source struct {
	name string
	b    []byte
	dec  func(in *netdata.DataInputX) (interface{}, error)
}

func sources() (l []source) {
	val := func(in *netdata.DataInputX) (interface{}, error) {
		v, err := in.ReadValue()
		return fromValue(v), err
	}
	packOf := func(in *netdata.DataInputX) (interface{}, error) {
		p, err := in.ReadPack()
		return describePack(p), err
	}
	for _, v := range []interface{}{true, int64(5), int64(-300), int64(1) << 40, float32(2), float64(3), "text", rep(300), textHash(9), []byte{1, 2, 3}, []byte(rep(256)), ip4{10, 1, 2, 3},
		[]interface{}{int64(1), "a", []interface{}{nil, true}}, map[string]interface{}{"k": int64(1)}, map[string]interface{}{"k": map[string]interface{}{"l": []interface{}{"x"}}}} {
		l = append(l, source{"value " + short(v), (&wr{}).value(v).b, val})
	}
	for _, m := range []map[string]interface{}{{}, {"cmd": "x"}, {"a": int64(7)}, {"txid": []interface{}{int64(1), int64(2)}}} {
		l = append(l, source{"map pack", (&wr{}).u8(10).table(m).b, packOf})
	}
	tags := map[string]interface{}{"t": "u"}
	l = append(l, source{"counters", (&wr{}).u8(60).i64(99).str("/h/o").u8(1).value(tags).b, packOf})
	l = append(l, source{"object", (&wr{}).u8(80).str("s").str("golang").dec(77777).str("/h/o").str("1.2.3.4").str("v").boolean(true).dec(12345).u8(3).value(tags).b, packOf})
	l = append(l, source{"object 1", (&wr{}).str("golang").dec(77777).str("/h/o").str("1.2.3.4").str("v").boolean(true).dec(12345).value(tags).b, func(in *netdata.DataInputX) (interface{}, error) {
		p := netdata.NewObjectPack()
		_, err := p.Read(in)
		return describePack(p), err
	}})
	l = append(l, source{"kubernetes counters", (&wr{}).i64(99).str("a").str("b").str("c").str("d").str("e").str("f").str("g").str("h").str("i").u8(1).u8(2).value(tags).b, func(in *netdata.DataInputX) (interface{}, error) {
		p := netdata.NewPerfCounterK8SPack()
		_, err := p.Read(in)
		return describePack(p), err
	}})
	l = append(l, source{"int bytes", (&wr{}).i32(5).raw([]byte("hello")).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadIntBytes() }})
	l = append(l, source{"string", (&wr{}).str("hello").b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadString() }})
	l = append(l, source{"long blob", (&wr{}).blob([]byte(rep(70000))).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadBlob() }})
	l = append(l, source{"huge blob", (&wr{}).blob([]byte(rep(2<<20 + 3))).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadBlob() }})
	l = append(l, source{"int32", (&wr{}).i32(77).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt32() }})
	l = append(l, source{"int64", (&wr{}).i64(77).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadInt64() }})
	l = append(l, source{"float64", (&wr{}).i64(int64(math.Float64bits(7.5))).b, func(in *netdata.DataInputX) (interface{}, error) { return in.ReadFloat64() }})
	l = append(l, source{"decimals", (&wr{}).dec(5).dec(500).dec(1 << 20).dec(1 << 60).b, func(in *netdata.DataInputX) (interface{}, error) {
		var l []interface{}
		for i := 0; i < 4; i++ {
			v, err := in.ReadDecimal()
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		return l, nil
	}})
	return
}

func init() {
	broken := errors.New("connection reset")
	// agree decodes arbitrary bytes with both decoders.
	agree := func(x *X, b []byte) {
		r := &rd{b: b}
		w := r.value()
		g := decodeValue(&pieces{b: b, cut: func(int) int { return 1 << 30 }, err: io.EOF})
		x.Cases++
		if r.err == nil {
			if g.err != nil || !eq(g.v, w) {
				x.Failf("bytes %x: read as %s (%v), they mean %s", b, short(g.v), g.err, short(w))
			}
		} else if !lenient(r.err) && g.err == nil {
			x.Failf("bytes %x: read as %s without an error, but %v", b, short(g.v), r.err)
		}
	}
	var ms0, ms1 runtime.MemStats
	register(&Property{ID: "C17",
		Bounds:      "every byte string up to 3 bytes and also all 4 byte strings that start with a container read as a value; every truncation point of a corpus of all values and readable packs, with end of data, a broken connection, or the error together with the last bytes; every way to cut encodings up to 17 (thorough: 20) bytes into reads, every single and double cut of longer ones; every byte of the corpus replaced by every other value; hostile lengths at every level and nesting to 1000000",
		Assumptions: []string{"after an invalid (not merely truncated) field inside an object or counter pack only the absence of crashes is required"},
		QuickSec:    90, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "all short inputs", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				agree(x, nil)
				for a := 0; a < 256; a++ {
					agree(x, []byte{byte(a)})
					for b := 0; b < 256; b++ {
						if !x.Mine() {
							continue
						}
						agree(x, []byte{byte(a), byte(b)})
						for c := 0; c < 256; c++ {
							agree(x, []byte{byte(a), byte(b), byte(c)})
							if a == 70 || a == 80 || a == 20 || a == 60 {
								for d := 0; d < 256; d++ {
									agree(x, []byte{byte(a), byte(b), byte(c), byte(d)})
								}
							}
						}
						x.States++
					}
				}
			}},
			{Name: "nested short inputs", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				// a list or map of up to 3 elements from an alphabet of tokens
				toks := []byte{0, 1, 2, 3, 6, 10, 20, 50, 60, 61, 70, 80, 254, 255}
				n := 6
				if x.Deep() {
					n = 7
				}
				var rec func(b []byte)
				rec = func(b []byte) {
					agree(x, b)
					if len(b) == n {
						return
					}
					for _, t := range toks {
						if len(b) == 2 && !x.Mine() {
							continue
						}
						rec(append(append([]byte{}, b...), t))
					}
				}
				rec([]byte{70})
				rec([]byte{80})
			}},
			{Name: "truncation", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				for _, s := range sources() {
					for k := 0; k < len(s.b); k++ {
						if len(s.b) > 1000 && k > 300 && k < len(s.b)-300 && k%65536 > 2 && k%4096 != 0 {
							continue
						}
						if !x.Mine() {
							continue
						}
						for _, e := range []error{io.EOF, broken, io.ErrUnexpectedEOF} {
							for _, with := range []bool{false, true} {
								for _, step := range []int{1 << 30, 7} {
									step := step
									in := netdata.NewDataInputX(&pieces{b: s.b[:k], cut: func(int) int { return step }, err: e, with: with})
									if g, err := s.dec(in); err == nil {
										x.Failf("%s cut after %d of %d bytes (%v) is read as %s without an error", s.name, k, len(s.b), e, short(g))
									}
									x.Cases++
								}
							}
						}
						if g, err := s.dec(netdata.NewDataInputX(append([]byte{}, s.b[:k]...))); err == nil {
							x.Failf("%s cut after %d of %d bytes is read as %s without an error", s.name, k, len(s.b), short(g))
						}
						x.States++
					}
				}
			}},
			{Name: "segmentation", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				lim := 17
				if x.Deep() {
					lim = 20
				}
				check := func(s source, want interface{}, cut func(int) int, what func() string) {
					for _, with := range []bool{false, true} {
						p := &pieces{b: s.b, cut: cut, err: io.EOF, with: with}
						g, err := s.dec(netdata.NewDataInputX(p))
						if err != nil || !eq(g, want) || p.off != len(s.b) {
							x.Failf("%s, arriving %s, is read as %s (%v)", s.name, what(), short(g), err)
						}
						x.Cases++
					}
				}
				for _, s := range sources() {
					want, err := s.dec(netdata.NewDataInputX(s.b))
					x.Check(err == nil, "%s cannot be read: %v", s.name, err)
					n := len(s.b)
					for _, k := range []int{1, 2, 3, 4, 5, 7, 8, 100, 512, 1460, 4096, 65536} {
						if n > 1<<20 && k < 8 || !x.Mine() {
							continue
						}
						check(s, want, func(int) int { return k }, func() string { return fmt.Sprint("in pieces of ", k) })
					}
					if n <= lim { // every segmentation
						for mask := uint(0); mask < 1<<uint(n-1); mask++ {
							if !x.Mine() {
								continue
							}
							check(s, want, func(off int) int {
								k := 1
								for off+k < n && mask>>uint(off+k-1)&1 == 0 {
									k++
								}
								return k
							}, func() string { return fmt.Sprintf("cut by mask %b", mask) })
						}
						x.States++
						continue
					}
					if n > 2000 {
						continue
					}
					for a := 1; a < n; a++ {
						if !x.Mine() {
							continue
						}
						for b := a; b < n; b++ {
							check(s, want, func(off int) int {
								switch {
								case off < a:
									return a - off
								case off < b:
									return b - off
								}
								return n - off
							}, func() string { return fmt.Sprintf("cut at %d and %d", a, b) })
						}
					}
					x.States++
				}
			}},
			{Name: "mutation", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				for _, s := range sources() {
					if len(s.b) > 1000 {
						continue
					}
					want, _ := s.dec(netdata.NewDataInputX(s.b))
					for i := range s.b {
						if !x.Mine() {
							continue
						}
						for v := 0; v < 256; v++ {
							b := append([]byte{}, s.b...)
							b[i] = byte(v)
							runtime.ReadMemStats(&ms0)
							g, err := s.dec(netdata.NewDataInputX(b))
							runtime.ReadMemStats(&ms1)
							if d := ms1.TotalAlloc - ms0.TotalAlloc; d > 24<<20 {
								x.Failf("%s with byte %d = %d: reading allocates %d bytes for %d", s.name, i, v, d, len(b))
							}
							if b[i] == s.b[i] && (err != nil || !eq(g, want)) {
								x.Failf("%s is read as %s (%v)", s.name, short(g), err)
							}
							if strings.HasPrefix(s.name, "value") {
								agree(x, b)
							}
							x.Cases++
						}
						x.States++
					}
				}
			}},
			{Name: "hostile", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/netdata")
				u4 := func(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
				lens := []uint32{1 << 10, 1 << 20, 1<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 0xffffffff, 0xfffffffe, 0x80000001}
				wraps := [][]byte{{}, {70, 1, 1}, {80, 1, 1, 1, 'k'}, {70, 1, 1, 70, 1, 1}}
				try := func(name string, b []byte) {
					for _, step := range []int{1 << 30, 1} {
						step := step
						runtime.ReadMemStats(&ms0)
						g := decodeValue(&pieces{b: b, cut: func(int) int { return step }, err: io.EOF})
						runtime.ReadMemStats(&ms1)
						if g.err == nil {
							x.Failf("%s: no error", name)
						}
						if d := ms1.TotalAlloc - ms0.TotalAlloc; d > 24<<20 {
							x.Failf("%s: %d bytes allocated for %d bytes of input", name, d, len(b))
						}
						x.Cases++
					}
				}
				for _, l := range lens {
					for _, w := range wraps {
						for _, have := range []int{0, 1, 100} {
							tail := append(u4(l), make([]byte, have)...)
							for _, t := range []byte{50, 60} {
								try(fmt.Sprintf("text or blob of %d with %d bytes", l, have), append(append(append([]byte{}, w...), t, 254), tail...))
							}
							for _, t := range []byte{70, 80} {
								if int32(l) < 0 {
									continue // a negative count is an empty container
								}
								try(fmt.Sprintf("container of %d with %d bytes", l, have), append(append(append([]byte{}, w...), t, 4), tail...))
								try("container of 2^62", append(append(append([]byte{}, w...), t, 8, 0x40, 0, 0, 0, 0, 0, 0, 0), make([]byte, have)...))
							}
						}
						// keys
						try("huge key", append(append(append([]byte{}, w...), 80, 1, 1, 254), u4(l)...))
					}
					b := append(u4(l), 1, 2, 3)
					for _, step := range []int{1 << 30, 1} {
						runtime.ReadMemStats(&ms0)
						_, err := netdata.NewDataInputX(&pieces{b: b, cut: func(int) int { return step }, err: io.EOF}).ReadIntBytes()
						runtime.ReadMemStats(&ms1)
						if err == nil || ms1.TotalAlloc-ms0.TotalAlloc > 24<<20 {
							x.Failf("%d announced bytes of which 3 come: %v, %d bytes allocated", int32(l), err, ms1.TotalAlloc-ms0.TotalAlloc)
						}
					}
					x.States++
				}
				for _, n := range []int{1000, 100000, 1000000} {
					for _, unit := range []string{"\x46\x01\x01", "\x50\x01\x01\x01k", "\x46\x01\x01\x50\x01\x01\x00"} {
						b := []byte(strings.Repeat(unit, n))
						try(fmt.Sprintf("%d nested containers", n), b)
						x.States++
					}
				}
				for t := 0; t < 256; t++ {
					known := t == 10 || t == 50 || t == 60 || t == 70 || t == 80
					for _, tail := range [][]byte{{}, make([]byte, 64)} {
						_, err := netdata.NewDataInputX(append([]byte{byte(t)}, tail...)).ReadPack()
						impl := t == 10 || t == 60 || t == 80
						if err == nil && (!known || impl && len(tail) == 0) {
							x.Failf("pack type %d with %d bytes is read without an error", t, len(tail))
						}
						x.Cases++
					}
				}
			}},
		}})
}
