// Package vrand replaces math/rand. Generators produce the real sequence of their seed, but are
// read-modify-write on their position, as the real ones are: unsynchronised use repeats values.
package vrand

import (
	"math/rand"
	"vshim/vsched"
)

// Intner, when set, decides the package-level Intn family.
var Intner func(n int) int

var seqs = map[int64]*seq{}

type seq struct {
	src  rand.Source64
	vals []uint64
}

// Retained is the size of the sequences remembered.
func Retained() (n int64) {
	for _, s := range seqs {
		n += int64(cap(s.vals)) * 8
	}
	return
}

func at(seed int64, i int) uint64 {
	s := seqs[seed]
	if s == nil {
		s = &seq{src: rand.NewSource(seed).(rand.Source64)}
		seqs[seed] = s
	}
	for len(s.vals) <= i {
		s.vals = append(s.vals, s.src.Uint64())
	}
	return s.vals[i]
}

type source struct {
	seed int64
	pos  int
}

func (s *source) Uint64() uint64 {
	p := s.pos
	vsched.Point("rand")
	s.pos = p + 1
	return at(s.seed, p)
}
func (s *source) Int63() int64    { return int64(s.Uint64() &^ (1 << 63)) }
func (s *source) Seed(seed int64) { s.seed, s.pos = seed, 0 }

func NewSource(seed int64) rand.Source { return &source{seed: seed} }

var global *source

func init() {
	vsched.OnReset(func() { global = &source{seed: 99}; Intner = nil })
	global = &source{seed: 99}
}

// the package-level functions are safe for concurrent use
func g() *rand.Rand { return rand.New(atomicSrc{}) }

type atomicSrc struct{}

func (atomicSrc) Uint64() uint64 {
	vsched.Point("rand")
	p := global.pos
	global.pos++
	return at(global.seed, p)
}
func (a atomicSrc) Int63() int64    { return int64(a.Uint64() &^ (1 << 63)) }
func (a atomicSrc) Seed(seed int64) { global.seed, global.pos = seed, 0 }

func Seed(s int64) { atomicSrc{}.Seed(s) }
func Intn(n int) int {
	if Intner != nil && n > 0 {
		return Intner(n)
	}
	return g().Intn(n)
}
func Int31n(n int32) int32 {
	if Intner != nil && n > 0 {
		return int32(Intner(int(n)))
	}
	return g().Int31n(n)
}
func Int63n(n int64) int64 {
	if Intner != nil && n > 0 {
		return int64(Intner(int(n)))
	}
	return g().Int63n(n)
}
func Int() int             { return g().Int() }
func Int31() int32         { return g().Int31() }
func Int63() int64         { return g().Int63() }
func Uint32() uint32       { return g().Uint32() }
func Uint64() uint64       { return g().Uint64() }
func Float32() float32     { return g().Float32() }
func Float64() float64     { return g().Float64() }
func NormFloat64() float64 { return g().NormFloat64() }
func ExpFloat64() float64  { return g().ExpFloat64() }
func Perm(n int) []int     { return g().Perm(n) }
func Shuffle(n int, f func(i, j int)) {
	g().Shuffle(n, f)
}
func Read(p []byte) (int, error) { return g().Read(p) }
