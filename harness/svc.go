package main

import (
	"context"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"sort"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"vshim/vsched"
)

// Code in which every memory access is a scheduling point.
var svcPkgs = []string{"scouterx/strace", "scouterx/netio", "scouterx/strace/tctxmanager", "scouterx/common/structure/lra"}

const keepAll = "xlog_sampling_enabled=false\n"

// gone is the context of a request whose client has left.
type gone struct {
	context.Context
	done chan struct{}
}

func (g gone) Done() <-chan struct{} { return g.done }
func (gone) Err() error              { return context.Canceled }

type hostValue struct{}

var contexts int // made in this execution

// bg makes a context of the host: empty, with a value, that can be cancelled, or already cancelled, in turn.
func bg() context.Context {
	contexts++
	switch contexts % 4 {
	case 2:
		return context.WithValue(context.Background(), hostValue{}, contexts)
	case 3:
		c, _ := context.WithCancel(context.Background())
		return c
	case 0:
		c := make(chan struct{})
		close(c)
		return gone{context.Background(), c}
	}
	return context.Background()
}

func txidOf(ctx context.Context) int64 {
	if ctx == nil {
		return 0
	}
	t := tctxmanager.GetTraceContext(ctx)
	if t == nil {
		return 0
	}
	return t.Txid
}

// metered is the number of completions counted in the last 300 seconds.
func metered() int {
	return int(math.Round(float64(counter.GetServiceMeter().GetAllCounter(300).Tps) * 300))
}

// meteredErrors is the number of failed ones.
func meteredErrors() int {
	c := counter.GetServiceMeter().GetAllCounter(300)
	return int(math.Round(float64(c.Tps) * 300 * float64(c.ErrorRate) / 100))
}

// goid is the number of the running goroutine.
func goid() int64 { return int64(vsched.Self().ID) + 1 }

func startSvc(name string) (context.Context, int64) {
	ctx := strace.StartService(bg(), name, "10.0.0.1:80")
	return ctx, txidOf(ctx)
}

func httpReq(method, u string) *http.Request {
	p, err := url.Parse(u)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &http.Request{Method: method, URL: p, Header: http.Header{}, RemoteAddr: "10.1.2.3:4567"}
}

// packBytes is the wire form of a pack.
func packBytes(p netdata.Pack) []byte {
	out := netdata.NewDataOutputX(nil)
	out.WritePack(p)
	return out.Bytes()
}

func mapOf(x *X, p netdata.Pack) wMap {
	r := &rd{b: packBytes(p)}
	m, ok := r.pack().(wMap)
	x.Check(ok && r.err == nil && r.left() == 0, "answer is not a well formed map pack: %v", r.err)
	return m
}

type active struct {
	Goid, Elapsed          int64
	Service, Txid, Ip, Nam string
}

// activeList asks for the active services as a collector does.
func activeList(x *X) []active {
	m := mapOf(x, tcpclient.GetActiveList())
	return activeOf(x, m)
}

func activeOf(x *X, m wMap) []active {
	col := func(k string) []interface{} {
		l, ok := m[k].([]interface{})
		x.Check(ok, "active list has no column %s", k)
		return l
	}
	id, el, sv, nm, tx, ip := col("id"), col("elapsed"), col("service"), col("name"), col("txid"), col("ip")
	n := len(id)
	for _, k := range []string{"elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"} {
		x.Check(len(col(k)) == n, "active list column %s has %d of %d rows", k, len(col(k)), n)
	}
	x.Check(m["complete"] == true, "active list is not complete")
	var l []active
	for i := 0; i < n; i++ {
		l = append(l, active{id[i].(int64), el[i].(int64), sv[i].(string), tx[i].(string), ip[i].(string), nm[i].(string)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Txid < l[j].Txid })
	return l
}

func hasActive(l []active, id int64) (n int) {
	for _, a := range l {
		if a.Txid == xid32(id) {
			n++
		}
	}
	return
}

// completedOnce requires exactly one completion of a service to have reached the collector.
func completedOnce(x *X, c *capture, id int64, name string) *wXLog {
	l := c.xlogsOf(id)
	x.Check(len(l) == 1, "service %q: %d transaction records instead of 1", name, len(l))
	x.Check(l[0].Service == hash(name), "service %q: record names service %d", name, l[0].Service)
	return l[0]
}

// profileExact requires the profile records of a transaction to agree with its transaction record.
func profileExact(x *X, c *capture, id int64, l *wXLog) {
	st := c.stepsOf(id)
	x.Check(int(l.ProfileCount) == len(st), "record says %d profile steps, %d arrived", l.ProfileCount, len(st))
	x.Check(int(l.ProfileSize) == c.size(id), "record says %d profile bytes, %d arrived", l.ProfileSize, c.size(id))
	for i := range st {
		x.Check(i == 0 || st[i].Index != st[i-1].Index, "profile step index %d twice", st[i].Index)
	}
	if len(st) > 0 {
		x.Check(st[0].Index == 0 && st[0].Type == 3, "first profile step is %s", stepText(st[0]))
	}
}

func describeSteps(st []wStep) string {
	s := ""
	for _, t := range st {
		s += stepText(t) + "; "
	}
	return s
}

func advance(d int64) { vsched.Advance(dur(d)) }

var _ = fmt.Sprint
