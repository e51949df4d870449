package main

import (
	"fmt"
	"hash/crc32"
	"math/big"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"vshim/vsched"
)

// bitHash is the hash of a text, bit by bit.
func bitHash(s string) int32 {
	c := ^uint32(0)
	for i := 0; i < len(s); i++ {
		c ^= uint32(s[i])
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xEDB88320
			} else {
				c >>= 1
			}
		}
	}
	return int32(^c)
}

func bigId(s string) (int64, bool) {
	if len(s) < 2 || s[0] != 'x' && s[0] != 'z' || s != strings.ToLower(s) {
		return 0, false
	}
	for _, c := range s[1:] {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'v') {
			return 0, false
		}
	}
	if len(s) > 2 && s[1] == '0' {
		return 0, false
	}
	b, ok := new(big.Int).SetString(s[1:], 32)
	if !ok {
		return 0, false
	}
	if s[0] == 'z' {
		b.Neg(b)
		if b.Sign() == 0 {
			return 0, false
		}
	}
	return b.Int64(), b.IsInt64()
}

func init() {
	register(&Property{ID: "C28",
		Bounds:      "hashes: all byte strings up to 3 bytes, texts of every length up to 3000 in 4 alphabets, around all powers of two up to 2^22 (thorough: 2^26); ids: all below 2^25 (thorough: 2^29) in size, all within 3 of sums and differences of two powers of two, all within 3 of d*32^k; addresses: all of 4 parts over 21 forms, all values of each part, 0 to 7 parts, and 14 ports and suffixes through a service",
		Assumptions: []string{"address parts are written without leading zeros"},
		QuickSec:    60, DeepSec: 600,
		Scenarios: []Scenario{
			{Name: "hashes", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/util")
				check := func(s string) {
					g := util.HashString(s)
					if g != int32(crc32.ChecksumIEEE([]byte(s))) || len(s) < 3 && g != bitHash(s) {
						x.Failf("hash of %q is %d, must be %d", s, g, bitHash(s))
					}
					if len(s) < 3 && util.Hash([]byte(s)) != g {
						x.Failf("hash of bytes %q differs", s)
					}
					x.Cases++
				}
				var al []byte
				for i := 0; i < 256; i++ {
					al = append(al, byte(i))
				}
				check("")
				for a := 0; a < 256; a++ {
					if !x.Mine() {
						continue
					}
					check(string([]byte{byte(a)}))
					for b := 0; b < 256; b++ {
						check(string([]byte{byte(a), byte(b)}))
					}
				}
				for _, a := range al {
					if !x.Mine() {
						continue
					}
					for _, b := range al {
						for _, c := range al {
							check(string([]byte{a, b, c}))
						}
					}
				}
				for n := 0; n <= 3000; n++ {
					if !x.Mine() {
						continue
					}
					check(strings.Repeat("\x00", n))
					check(strings.Repeat("\xff", n))
					check(strings.Repeat("가나", n/6+1)[:n])
					check(strings.Repeat("/service<GET>0123456789", n/23+1)[:n])
				}
			}},
			{Name: "long texts", Whole: true, Cfg: Config{MaxSteps: 1 << 40, MaxTicks: 1 << 40}, Body: func(x *X) {
				boot("", "scouterx/common/util")
				top := uint(22)
				if x.Deep() {
					top = 26
				}
				for k := uint(12); k <= top; k++ {
					for d := -2; d <= 2; d++ {
						if !x.Mine() {
							continue
						}
						b := []byte(rep(1<<k + d))
						for _, at := range []int{-1, 0, len(b) / 2, len(b) - 1} {
							if at >= 0 {
								b[at] ^= 0x80
							}
							want := int32(crc32.ChecksumIEEE(b))
							x.Check(util.HashString(string(b)) == want && util.Hash(b) == want, "hash of a text of %d bytes (byte %d changed) is %d, must be %d", len(b), at, util.HashString(string(b)), want)
							x.Cases++
						}
					}
				}
			}},
			{Name: "ids", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/util")
				check := func(v int64) {
					s := util.IntToXlogString32(v)
					g, ok := bigId(s)
					if !ok || g != v || s != xid32(v) {
						x.Failf("id %d has the text %q, which means %d", v, s, g)
					}
					x.Cases++
				}
				n := int64(1 << 25)
				if x.Deep() {
					n = 1 << 29
				}
				for a := -n; a < n; a += n / 64 {
					if !x.Mine() {
						continue
					}
					for v := a; v < a+n/64; v++ {
						check(v)
					}
				}
				for i := uint(0); i < 64; i++ {
					if !x.Mine() {
						continue
					}
					for j := uint(0); j < 64; j++ {
						for d := int64(-3); d <= 3; d++ {
							v := int64(uint64(1)<<i+uint64(1)<<j) + d
							check(v)
							check(-v)
							w := int64(uint64(1)<<i-uint64(1)<<j) + d
							check(w)
						}
					}
				}
				p := int64(1)
				for k := 0; k < 13; k++ {
					for m := int64(-31); m <= 31; m++ {
						for d := int64(-3); d <= 3; d++ {
							check(m*p + d)
						}
					}
					p *= 32
				}
			}},
			{Name: "addresses", Whole: true, Body: func(x *X) {
				boot("", "scouterx/common/util")
				check := func(s string) {
					want := []byte{0, 0, 0, 0}
					if ps := strings.Split(s, "."); len(ps) == 4 {
						ok := true
						for i, p := range ps {
							v := 0
							if p == "" || len(p) > 3 {
								ok = false
								break
							}
							for _, c := range p {
								if c < '0' || c > '9' {
									ok = false
								}
								v = v*10 + int(c-'0')
							}
							if v > 255 || !ok {
								ok = false
								break
							}
							want[i] = byte(v)
						}
						if !ok {
							want = []byte{0, 0, 0, 0}
						}
					}
					if g := util.IpToBytes(s); string(g) != string(want) {
						x.Failf("address %q is %v, must be %v", s, g, want)
					}
					x.Cases++
				}
				forms := []string{"0", "1", "9", "10", "99", "100", "127", "128", "199", "200", "249", "254", "255", "256", "999", "1000", "-1", "", " 1", "a", "1e1"}
				for _, a := range forms {
					if !x.Mine() {
						continue
					}
					for _, b := range forms {
						for _, c := range forms {
							for _, d := range forms {
								check(a + "." + b + "." + c + "." + d)
							}
						}
					}
				}
				for v := 0; v < 1000; v++ {
					for i := 0; i < 4; i++ {
						p := []string{"1", "2", "3", "4"}
						p[i] = fmt.Sprint(v)
						check(strings.Join(p, "."))
					}
				}
				for n := 0; n < 8; n++ {
					check(strings.Repeat("7.", n))
					check(strings.TrimSuffix(strings.Repeat("7.", n), "."))
				}
				for _, s := range []string{"::1", "fe80::1%eth0", "localhost", "1.2.3.4.", ".1.2.3.4", "1.2.3", "1..2.3", "1.2.3.4:80", "1,2,3,4", "가.2.3.4"} {
					check(s)
				}
			}},
			{Name: "recorded", Body: func(x *X) {
				// hashes and addresses of a service as they arrive
				names := []string{"/a", "", "가나다", strings.Repeat("n", 300), "\x00\xff", "/b<GET>"}
				name := names[vsched.Choose(len(names), "name")]
				ads := []string{"1.2.3.4", "1.2.3.4:5", "255.255.255.255:1", "0.0.0.0", "128.0.127.200:65535", "", "host", "host:1", "[::1]:80", "::1", "1.2.3:4", "256.1.1.1:1", ":80", "1.2.3.4:"}
				ips := [][]byte{{1, 2, 3, 4}, {1, 2, 3, 4}, {255, 255, 255, 255}, {0, 0, 0, 0}, {128, 0, 127, 200}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {1, 2, 3, 4}}
				a := vsched.Choose(len(ads), "address")
				boot(keepAll, "scouterx/strace")
				ctx := strace.StartService(bg(), name, ads[a])
				id := txidOf(ctx)
				l := activeList(x)
				x.Check(len(l) == 1 && l[0].Txid == xid32(id), "active list %v for id %d", l, id)
				strace.EndService(ctx)
				drain()
				c := received(x)
				r := c.xlogsOf(id)
				x.Check(len(r) == 1 && r[0].Service == bitHash(name) && string(r[0].Ip) == string(ips[a]), "service %q at %q recorded as %+v", name, ads[a], r)
				x.Check(r[0].ObjHash == bitHash(objHash0), "object hash %d", r[0].ObjHash)
				x.Case()
			}},
		}})
}
