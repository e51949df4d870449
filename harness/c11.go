package main

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vsched"
)

// ipOf is the four byte form of a remote address: everything that is not a dotted quad is unknown.
func ipOf(addr string) string {
	host := addr
	if i := strings.IndexByte(addr, ':'); i >= 0 {
		host = addr[:i]
	}
	var b [4]byte
	parts := strings.Split(host, ".")
	if len(parts) != 4 {
		return "\x00\x00\x00\x00"
	}
	for i, p := range parts {
		n := 0
		if p == "" || len(p) > 3 {
			return "\x00\x00\x00\x00"
		}
		for _, c := range p {
			if c < '0' || c > '9' {
				return "\x00\x00\x00\x00"
			}
			n = n*10 + int(c-'0')
		}
		if n > 255 {
			return "\x00\x00\x00\x00"
		}
		b[i] = byte(n)
	}
	return string(b[:])
}

var remotes = []string{"10.1.2.3:4567", "10.1.2.3", "255.255.255.255:65535", "0.0.0.0:1", "1.2.3.256:9", "256.2.3.4:1", "1.2.3:80", "1.2.3.4.5:80",
	"", ":80", "localhost:80", "[::1]:80", "::1", "1..3.4:5", "a.b.c.d:1", "-1.2.3.4:1", "1.2.3.-4", "192.168.100.200:80:90", "99999999999.1.1.1", "127.0.0.1:http"}

func textOf(x *X, c *capture, kind string, h int32, want, what string) {
	if want == "" && h == 0 {
		return
	}
	x.Check(h == hash(want), "%s: recorded hash %x, expected that of %q", what, uint32(h), want)
	if want != "" {
		t, ok := c.lookup(kind, h)
		x.Check(ok && t == want, "%s: text %q of kind %s was not sent", what, want, kind)
	}
}

func messages(st []wStep) (l []string) {
	for _, s := range st[1:] {
		if s.Type == 3 {
			l = append(l, s.Text)
		}
	}
	return
}

// requestText is everything a request says.
func requestText(r *http.Request) string {
	return fmt.Sprintf("%q %q %q %q %#v %#v %q %q %d %v %v", r.Method, r.Proto, r.Host, r.RequestURI, *r.URL, r.Header, r.RemoteAddr, r.Form, r.ContentLength, r.Body, r.Trailer)
}

// trimHeader brings "header:  key : value" to one form.
func trimHeader(s string) string {
	if !strings.HasPrefix(s, "header: ") {
		return s
	}
	kv := strings.SplitN(s[8:], ": ", 2)
	if len(kv) != 2 {
		return s
	}
	return "header: " + strings.TrimSpace(kv[0]) + ": " + kv[1]
}

// spyBody notices its use.
type spyBody struct{ used int }

func (b *spyBody) Read(p []byte) (int, error) { b.used++; return 0, io.EOF }
func (b *spyBody) Close() error               { b.used++; return nil }

func init() {
	methods := []string{"GET", "POST", "", "M-SEARCH", "get"}
	paths := []string{"/", "", "/a/b.c", "/a%20b/%2F", "/a<b>", "*", "/" + strings.Repeat("long/", 60), "/한글"}
	statuses := []int{200, 0, 100, 404, 599, -1, 1 << 30}
	headerSets := []http.Header{
		nil,
		{},
		{"X-A": {"1"}},
		{"X-A": {"1", "2", "3"}, "X-B": {""}, "X-C": {"c: d"}},
		{"X-A": {}, "X-B": nil, "User-Agent": {"ua"}, "Referer": {"http://r/"}},
		{"X-A": {" padded\t", "", "UPPER lower"}, "X-B": {"b"}, "X-C": {"%s %d", "a,b", ",", "\x00\xff"}},
		{"x-a": {"not canonical"}, "X-B": {"b"}, "X-C": {strings.Repeat("v", 300)}},
	}
	keySets := []string{"", "X-A", "x-b,x-a", " X-C , X-A ,X-Missing", "X-A,,X-B", "Missing", "user-agent"}
	register(&Property{ID: "C11",
		Bounds:      "5 methods x 8 paths x 20 remote addresses x client address header off, absent, empty or one of 20 values; 7 header sets x 7 header key lists x header and query capture switches x 6 query strings; 7 statuses or no response x 2 ways to end, whose bodies are neither read nor closed; 5 user agents x 5 referers",
		Assumptions: []string{"only dotted IPv4 addresses are representable in a transaction record; others are recorded as 0.0.0.0"},
		QuickSec:    60, DeepSec: 300,
		Scenarios: []Scenario{
			{Name: "request-line", Body: func(x *X) {
				m := methods[vsched.Choose(len(methods), "method")]
				k := vsched.Choose(4, "client header")
				cfg := keepAll
				if k > 0 {
					cfg += "trace_http_client_ip_header_key=X-Forwarded-For\n"
				}
				boot(cfg, "scouterx/strace")
				type one struct {
					id       int64
					name, ip string
				}
				var all []one
				for pi, p := range paths {
					for ri, ra := range remotes {
						req := httpReq(m, "/")
						req.URL.Path = p
						req.RemoteAddr = ra
						ip := ra
						switch k {
						case 0:
							req.Header.Set("X-Forwarded-For", "9.9.9.9")
						case 2:
							req.Header.Set("X-Forwarded-For", "")
						case 3:
							h := remotes[(ri+pi)%len(remotes)]
							req.Header.Set("X-Forwarded-For", h)
							if h != "" {
								ip = h
							}
						}
						before := requestText(req)
						ctx := strace.StartHttpService(bg(), req)
						id := txidOf(ctx)
						x.Check(id != 0, "%s %q from %q is not traced", m, p, ra)
						strace.EndHttpService(ctx, req, nil)
						x.Check(requestText(req) == before, "the request was altered from %s to %s", before, requestText(req))
						all = append(all, one{id, p + "<" + m + ">", ip})
						x.Case()
					}
				}
				drain()
				c := received(x)
				x.Check(len(c.xlogs) == len(all), "%d records for %d requests", len(c.xlogs), len(all))
				for _, o := range all {
					l := completedOnce(x, c, o.id, o.name)
					textOf(x, c, "service", l.Service, o.name, "service name")
					x.Check(string(l.Ip) == ipOf(o.ip), "remote address %q recorded as %v", o.ip, l.Ip)
					x.Check(l.XType == 0, "%q recorded with type %d", o.name, l.XType)
					x.Check(l.Gxid == o.id && l.Caller == 0, "%q recorded with global id %d caller %d", o.name, l.Gxid, l.Caller)
					x.Check(l.Status == 0 && l.Error == 0 && l.ObjHash == hash(objHash0), "%q recorded as %+v", o.name, *l)
				}
			}},
			{Name: "headers", Body: func(x *X) {
				on, q := vsched.Choose(2, "headers") == 1, vsched.Choose(2, "query") == 1
				keys := keySets[vsched.Choose(len(keySets), "keys")]
				cfg := keepAll + fmt.Sprintf("profile_http_header_enabled=%v\nprofile_http_querystring_enabled=%v\n", on, q)
				if keys != "" {
					cfg += "profile_http_header_keys=" + keys + "\n"
				}
				boot(cfg, "scouterx/strace")
				type one struct {
					id     int64
					listed []string // exact order
					any    []string // any order
					tail   []string
					d      string
				}
				var all []one
				for hi, h := range headerSets {
					for _, query := range []string{"", "a=b", "a=b&a=c", "%zz", "q=" + strings.Repeat("x", 300), "한=글"} {
						req := httpReq("GET", "/h")
						req.Header = h.Clone()
						req.URL.RawQuery = query
						before := requestText(req)
						ctx := strace.StartHttpService(bg(), req)
						o := one{id: txidOf(ctx), d: fmt.Sprintf("header set %d, keys %q, query %q", hi, keys, query)}
						strace.AddMessageStep(ctx, "body")
						strace.EndHttpService(ctx, req, nil)
						x.Check(requestText(req) == before, "header set %d, keys %q: the request was altered from %s to %s", hi, keys, before, requestText(req))
						if on && keys == "" {
							for k, v := range h {
								o.any = append(o.any, "header: "+k+": "+strings.Join(v, ","))
							}
						} else if on {
							for _, k := range strings.Split(keys, ",") {
								k = strings.TrimSpace(k)
								if v := h[http.CanonicalHeaderKey(k)]; len(v) > 0 {
									o.listed = append(o.listed, "header: "+k+": "+strings.Join(v, ","))
								}
							}
						}
						if q {
							o.tail = append(o.tail, "query: "+query)
						}
						o.tail = append(o.tail, "body")
						all = append(all, o)
						x.Case()
					}
				}
				drain()
				c := received(x)
				for _, o := range all {
					profileExact(x, c, o.id, completedOnce(x, c, o.id, "/h<GET>"))
					got := messages(c.stepsOf(o.id))
					for i := range got {
						got[i] = trimHeader(got[i])
					}
					want := append([]string{}, o.listed...)
					if len(o.any) > 0 {
						sort.Strings(o.any)
						want = o.any
						if len(got) >= len(want) {
							sort.Strings(got[:len(want)])
						}
					}
					want = append(append([]string{}, want...), o.tail...)
					x.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "%s: captured %q, expected %q", o.d, got, want)
				}
			}},
			{Name: "responses", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				texts := []string{"", "curl/1", "한글 UA", strings.Repeat("z", 300), "curl/1 "}
				type one struct {
					id      int64
					st      int
					ua, ref string
				}
				var all []one
				for s := -1; s < len(statuses); s++ {
					for _, ua := range texts {
						for _, ref := range texts {
							req := httpReq("PUT", "/r")
							sent := new(spyBody)
							req.Body = sent
							if ua != "" {
								req.Header.Set("User-Agent", ua)
							}
							if ref != "" {
								req.Header.Set("Referer", ref)
							}
							ctx := strace.StartHttpService(bg(), req)
							o := one{txidOf(ctx), 0, ua, ref}
							if s >= 0 {
								o.st = statuses[s]
								body := new(spyBody)
								res := &http.Response{StatusCode: o.st, Body: body, Request: req, Header: http.Header{"X-R": {"1"}}, ContentLength: 7, Close: true}
								was := fmt.Sprintf("%d %p %p %v %v %d", res.StatusCode, res.Body, res.Request, res.Header, res.Close, res.ContentLength)
								strace.EndHttpService(ctx, req, res)
								x.Check(was == fmt.Sprintf("%d %p %p %v %v %d", res.StatusCode, res.Body, res.Request, res.Header, res.Close, res.ContentLength), "the response was altered: %+v", res)
								x.Check(body.used == 0, "the body of the response was read or closed")
								strace.EndHttpService(ctx, req, &http.Response{StatusCode: 1})
							} else {
								strace.EndService(ctx)
							}
							x.Check(req.Body == sent && sent.used == 0, "the body of the request was read or closed")
							all = append(all, o)
							x.Case()
						}
					}
				}
				drain()
				c := received(x)
				for _, o := range all {
					l := completedOnce(x, c, o.id, "/r<PUT>")
					x.Check(int(l.Status) == o.st, "status %d recorded as %d", o.st, l.Status)
					textOf(x, c, "ua", l.UserAgent, o.ua, "user agent")
					textOf(x, c, "referer", l.Referer, o.ref, "referer")
				}
				x.Check(len(c.xlogs) == len(all) && metered() == len(all), "%d records, %d completions for %d requests", len(c.xlogs), metered(), len(all))
			}},
			{Name: "nested", Body: func(x *X) {
				boot(keepAll, "scouterx/strace")
				k := vsched.Choose(4, "outer and inner kind")
				ctx := bg()
				if k&1 == 0 {
					ctx = strace.StartHttpService(ctx, httpReq("GET", "/outer"))
				} else {
					ctx = strace.StartService(ctx, "/outer<GET>", "10.1.2.3:1")
				}
				id := txidOf(ctx)
				inner := ctx
				if k&2 == 0 {
					inner = strace.StartHttpService(ctx, httpReq("POST", "/inner"))
				} else {
					inner = strace.StartService(ctx, "/inner", "")
				}
				x.Check(txidOf(inner) == id, "a service started within a traced context became another transaction")
				strace.AddMessageStep(inner, "in")
				strace.EndHttpService(inner, nil, &http.Response{StatusCode: 201})
				strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 500})
				drain()
				c := received(x)
				l := completedOnce(x, c, id, "/outer<GET>")
				profileExact(x, c, id, l)
				x.Check(len(c.xlogs) == 1 && l.Status == 201, "nested start: %d records, status %d", len(c.xlogs), l.Status)
				x.Case()
			}},
		}})
}
