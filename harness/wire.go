package main

// An independent decoder and encoder for the collector's wire format. Written from the protocol, it shares
// no code with the target.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
)

// ---- decoding ----

type rd struct {
	b   []byte
	off int
	err error
}

var errShort = errors.New("short data")

func (r *rd) fail(f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}

func (r *rd) take(n int) []byte {
	if r.err != nil {
		return make([]byte, max0(n, 16))
	}
	if n < 0 || r.off+n > len(r.b) {
		r.fail("need %d bytes at %d of %d", n, r.off, len(r.b))
		return make([]byte, max0(n, 16))
	}
	v := r.b[r.off : r.off+n]
	r.off += n
	return v
}

func max0(n, m int) int {
	if n < 0 || n > 1<<20 {
		return m
	}
	if n < m {
		return m
	}
	return n
}

func (r *rd) left() int  { return len(r.b) - r.off }
func (r *rd) u8() int    { return int(r.take(1)[0]) }
func (r *rd) i8() int8   { return int8(r.take(1)[0]) }
func (r *rd) u16() int   { return int(binary.BigEndian.Uint16(r.take(2))) }
func (r *rd) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *rd) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *rd) boolean() bool {
	v := r.u8()
	if v > 1 {
		r.fail("boolean %d", v)
	}
	return v == 1
}

func (r *rd) dec() int64 {
	n := r.u8()
	switch n {
	case 0:
		return 0
	case 1, 2, 3, 4, 5, 8:
		b := r.take(n)
		v := int64(int8(b[0]))
		for i := 1; i < n; i++ {
			v = v<<8 | int64(b[i])
		}
		return v
	}
	r.fail("decimal length %d", n)
	return 0
}

func (r *rd) d32() int32 {
	v := r.dec()
	if v != int64(int32(v)) {
		r.fail("decimal %d does not fit 32 bit", v)
	}
	return int32(v)
}

func (r *rd) blob() []byte {
	n := r.u8()
	switch n {
	case 0:
		return []byte{}
	case 255:
		n = r.u16()
	case 254:
		n = int(r.i32())
	}
	if r.err != nil {
		return []byte{}
	}
	v := r.take(n)
	if r.err != nil {
		return []byte{}
	}
	return append([]byte{}, v...)
}

func (r *rd) str() string { return string(r.blob()) }

// textHash and ip4 keep their wire identity.
type textHash int32
type ip4 [4]byte

func (r *rd) value() interface{} { return r.valueOf(r.u8(), 0) }

func (r *rd) valueOf(t, depth int) interface{} {
	if r.err != nil {
		return nil
	}
	switch t {
	case 0:
		return nil
	case 10:
		return r.boolean()
	case 20:
		return r.dec()
	case 30:
		return math.Float32frombits(uint32(r.i32()))
	case 40:
		return math.Float64frombits(uint64(r.i64()))
	case 50:
		return r.str()
	case 51:
		return textHash(r.i32())
	case 60:
		return r.blob()
	case 61:
		var v ip4
		copy(v[:], r.take(4))
		return v
	case 70:
		n := r.dec()
		l := []interface{}{}
		for i := int64(0); i < n && r.err == nil; i++ {
			l = append(l, r.valueOf(r.u8(), depth+1))
		}
		return l
	case 80:
		return r.table()
	}
	r.fail("value type %d", t)
	return nil
}

func (r *rd) table() map[string]interface{} {
	n := r.dec()
	m := map[string]interface{}{}
	for i := int64(0); i < n && r.err == nil; i++ {
		k := r.str()
		if _, ok := m[k]; ok {
			r.fail("key %q twice", k)
		}
		m[k] = r.value()
	}
	return m
}

func (r *rd) mapValue() map[string]interface{} {
	if t := r.u8(); t != 80 {
		r.fail("map value expected, type %d", t)
		return nil
	}
	return r.table()
}

type wXLog struct {
	EndTime                                              int64
	ObjHash, Service                                     int32
	Txid, Caller, Gxid                                   int64
	Elapsed, Error, Cpu, SqlCount, SqlTime               int32
	Ip                                                   []byte
	Kbytes, Status                                       int32
	Userid                                               int64
	UserAgent, Referer, Group, ApicallCount, ApicallTime int32
	CountryCode                                          string
	City                                                 int32
	XType                                                int
	Login, Desc, WebHash, WebTime                        int32
	HasDump                                              int
	ThreadName                                           int32
	Text1, Text2                                         string
	QHost, QTime, Q2Host, Q2Time                         int32
	Text3, Text4, Text5                                  string
	ProfileCount                                         int32
	B3                                                   bool
	ProfileSize                                          int32
	Discard                                              int
	IgnoreGlobal                                         bool
}

type wStep struct {
	Type                 int
	Parent, Index, Start int32
	Cpu0                 int32
	Hash, Elapsed, Cpu   int32
	Err                  int32
	Opt                  int
	Value, Level         int32
	Txid                 int64
	Text, Addr           string
	Stacks               []int32
	Strs                 []string
	Longs                []int64
}

type wProfile struct {
	Time    int64
	ObjHash int32
	Service int32
	Txid    int64
	Size    int
	Steps   []wStep
}

type wText struct {
	X    string
	Hash int32
	Text string
}

type wAlert struct {
	Time    int64
	Level   int
	ObjType string
	ObjHash int32
	Title   string
	Msg     string
	Tags    map[string]interface{}
}

type wPerf struct {
	Time int64
	Obj  string
	Type int8
	Data map[string]interface{}
}

type wK8S struct {
	Time int64
	S    [9]string
	Type int8
	Lvl  int8
	Data map[string]interface{}
}

type wObj struct {
	SiteID  string
	Type    string
	Hash    int32
	Name    string
	Addr    string
	Version string
	Alive   bool
	Wakeup  int64
	Family  int8
	Tags    map[string]interface{}
}

type wMap map[string]interface{}

func (r *rd) steps() []wStep {
	var l []wStep
	for r.left() > 0 && r.err == nil {
		l = append(l, r.step())
	}
	return l
}

func (r *rd) step() wStep {
	s := wStep{Type: r.u8()}
	s.Parent, s.Index, s.Start, s.Cpu0 = r.d32(), r.d32(), r.d32(), r.d32()
	switch s.Type {
	case 1:
		s.Hash, s.Elapsed, s.Cpu = r.d32(), r.d32(), r.d32()
	case 3:
		s.Text = r.str()
	case 6:
		s.Txid = r.dec()
		s.Hash, s.Elapsed, s.Cpu, s.Err = r.d32(), r.d32(), r.d32(), r.d32()
		s.Opt = r.u8()
		if s.Opt == 1 {
			s.Addr = r.str()
		}
	case 9:
		s.Hash, s.Elapsed, s.Value = r.d32(), r.d32(), r.d32()
	case 12:
		n := int(int16(r.u16()))
		for i := 0; i < n && r.err == nil; i++ {
			s.Stacks = append(s.Stacks, r.i32())
		}
		s.Longs = append(s.Longs, r.i64())
		s.Strs = append(s.Strs, r.str(), r.str())
		s.Longs = append(s.Longs, r.i64())
		s.Strs = append(s.Strs, r.str(), r.str())
	case 14:
		s.Txid = r.dec()
		s.Hash, s.Elapsed = r.d32(), r.d32()
		s.Opt = r.u8()
	case 17:
		s.Hash, s.Elapsed, s.Level = r.d32(), r.d32(), r.d32()
		s.Text = r.str()
	default:
		r.fail("step type %d", s.Type)
	}
	return s
}

func (r *rd) pack() interface{} {
	t := r.u8()
	if r.err != nil {
		return nil
	}
	switch t {
	case 10:
		return wMap(r.table())
	case 21:
		q := &rd{b: r.blob()}
		x := &wXLog{}
		x.EndTime, x.ObjHash, x.Service = q.dec(), q.d32(), q.d32()
		x.Txid, x.Caller, x.Gxid = q.i64(), q.i64(), q.i64()
		x.Elapsed, x.Error, x.Cpu, x.SqlCount, x.SqlTime = q.d32(), q.d32(), q.d32(), q.d32(), q.d32()
		x.Ip = q.blob()
		x.Kbytes, x.Status, x.Userid = q.d32(), q.d32(), q.dec()
		x.UserAgent, x.Referer, x.Group, x.ApicallCount, x.ApicallTime = q.d32(), q.d32(), q.d32(), q.d32(), q.d32()
		x.CountryCode, x.City, x.XType = q.str(), q.d32(), q.u8()
		x.Login, x.Desc, x.WebHash, x.WebTime, x.HasDump = q.d32(), q.d32(), q.d32(), q.d32(), q.u8()
		x.ThreadName = q.d32()
		x.Text1, x.Text2 = q.str(), q.str()
		x.QHost, x.QTime, x.Q2Host, x.Q2Time = q.d32(), q.d32(), q.d32(), q.d32()
		x.Text3, x.Text4, x.Text5 = q.str(), q.str(), q.str()
		x.ProfileCount, x.B3, x.ProfileSize = q.d32(), q.boolean(), q.d32()
		x.Discard, x.IgnoreGlobal = q.u8(), q.boolean()
		if q.err == nil && q.left() != 0 {
			q.fail("%d bytes after the xlog", q.left())
		}
		if q.err != nil {
			r.fail("xlog: %v", q.err)
		}
		return x
	case 26:
		p := &wProfile{}
		p.Time, p.ObjHash, p.Service, p.Txid = r.dec(), r.d32(), r.d32(), r.i64()
		b := r.blob()
		p.Size = len(b)
		q := &rd{b: b}
		p.Steps = q.steps()
		if q.err != nil {
			r.fail("profile: %v", q.err)
		}
		return p
	case 50:
		return &wText{r.str(), r.i32(), r.str()}
	case 60:
		p := &wPerf{Time: r.i64(), Obj: r.str(), Type: r.i8()}
		p.Data = r.mapValue()
		return p
	case 65:
		p := &wK8S{Time: r.i64()}
		for i := range p.S {
			p.S[i] = r.str()
		}
		p.Type, p.Lvl = r.i8(), r.i8()
		p.Data = r.mapValue()
		return p
	case 70:
		a := &wAlert{Time: r.i64(), Level: r.u8(), ObjType: r.str(), ObjHash: r.i32(), Title: r.str(), Msg: r.str()}
		a.Tags = r.mapValue()
		return a
	case 80:
		o := &wObj{Type: r.str(), Hash: r.d32(), Name: r.str(), Addr: r.str(), Version: r.str(), Alive: r.boolean(), Wakeup: r.dec()}
		o.Tags = r.mapValue()
		return o
	}
	r.fail("pack type %d", t)
	return nil
}

// object2 decodes the second form of the object pack (after its type byte).
func (r *rd) object2() *wObj {
	o := &wObj{SiteID: r.str(), Type: r.str(), Hash: r.d32(), Name: r.str(), Addr: r.str(), Version: r.str(), Alive: r.boolean(), Wakeup: r.dec(), Family: r.i8()}
	o.Tags = r.mapValue()
	return o
}

// ---- encoding ----

type wr struct{ b []byte }

func (w *wr) u8(v int) *wr     { w.b = append(w.b, byte(v)); return w }
func (w *wr) u16(v int) *wr    { w.b = append(w.b, byte(v>>8), byte(v)); return w }
func (w *wr) i32(v int32) *wr  { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)); return w }
func (w *wr) i64(v int64) *wr  { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)); return w }
func (w *wr) raw(v []byte) *wr { w.b = append(w.b, v...); return w }
func (w *wr) boolean(v bool) *wr {
	if v {
		return w.u8(1)
	}
	return w.u8(0)
}

func (w *wr) dec(v int64) *wr {
	switch {
	case v == 0:
		return w.u8(0)
	case v == int64(int8(v)):
		return w.u8(1).u8(int(v))
	case v == int64(int16(v)):
		return w.u8(2).u16(int(v))
	case v == int64(int32(v)):
		return w.u8(4).i32(int32(v))
	}
	return w.u8(8).i64(v)
}

func (w *wr) blob(v []byte) *wr {
	n := len(v)
	switch {
	case n == 0:
		return w.u8(0)
	case n <= 253:
		return w.u8(n).raw(v)
	case n <= 65535:
		return w.u8(255).u16(n).raw(v)
	}
	return w.u8(254).i32(int32(n)).raw(v)
}

func (w *wr) str(s string) *wr {
	if len(s) > 100000 {
		s = "huge string omitted..."
	}
	return w.blob([]byte(s))
}

func (w *wr) value(v interface{}) *wr {
	switch t := v.(type) {
	case nil:
		return w.u8(0)
	case bool:
		return w.u8(10).boolean(t)
	case int64:
		return w.u8(20).dec(t)
	case int:
		return w.u8(20).dec(int64(t))
	case float32:
		return w.u8(30).i32(int32(math.Float32bits(t)))
	case float64:
		return w.u8(40).i64(int64(math.Float64bits(t)))
	case string:
		return w.u8(50).str(t)
	case textHash:
		return w.u8(51).i32(int32(t))
	case []byte:
		return w.u8(60).blob(t)
	case ip4:
		return w.u8(61).raw(t[:])
	case []interface{}:
		w.u8(70).dec(int64(len(t)))
		for _, e := range t {
			w.value(e)
		}
		return w
	case map[string]interface{}:
		return w.u8(80).table(t)
	}
	panic(fmt.Sprintf("harness: value %T", v))
}

func (w *wr) table(t map[string]interface{}) *wr {
	w.dec(int64(len(t)))
	keys := make([]string, 0, len(t))
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w.str(k).value(t[k])
	}
	return w
}

// request builds a collector command.
func request(cmd string, param map[string]interface{}) []byte {
	w := &wr{}
	w.str(cmd).u8(10).table(param)
	return (&wr{}).i32(int32(len(w.b))).raw(w.b).b
}

// eq compares decoded values.
func eq(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !eq(v, w) {
				return false
			}
		}
		return true
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}
