// Package srand replaces the sources of randomness
package srand

import (
	"math/rand"

	"github.com/solarisdb/solaris/zsim/sim"
)

func next() uint64 {
	if s := sim.S; s != nil {
		return s.Rng().U64()
	}
	return 0x9E3779B97F4A7C15
}

type src struct{}

func (src) Int63() int64   { return int64(next() >> 1) }
func (src) Uint64() uint64 { return next() }
func (src) Seed(int64)     {}

var g = rand.New(src{})

func NewSource(seed int64) rand.Source {
	salt := uint64(0)
	if sim.Active() {
		salt = sim.CurNode().Salt()
	}
	return &lazy{seed: seed ^ int64(salt)}
}

// lazy is a small generator, the real one is slow to seed
type lazy struct {
	seed int64
	r    *sim.Rng
}

func (l *lazy) Seed(s int64) { l.seed = s; l.r = nil }
func (l *lazy) Uint64() uint64 {
	if l.r == nil {
		l.r = sim.NewRng(uint64(l.seed))
	}
	return l.r.U64()
}
func (l *lazy) Int63() int64 { return int64(l.Uint64() >> 1) }

func Int() int                { return g.Int() }
func Intn(n int) int          { return g.Intn(n) }
func Int31() int32            { return g.Int31() }
func Int31n(n int32) int32    { return g.Int31n(n) }
func Int63() int64            { return g.Int63() }
func Int63n(n int64) int64    { return g.Int63n(n) }
func Uint32() uint32          { return g.Uint32() }
func Uint64() uint64          { return g.Uint64() }
func Float64() float64        { return g.Float64() }
func Float32() float32        { return g.Float32() }
func Uint() uint              { return uint(g.Uint64()) }
func UintN(n uint) uint       { return uint(Uint64N(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(Uint64N(uint64(n))) }
func Uint64N(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Uint64N")
	}
	return g.Uint64() % n
}

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(g.Uint64() % uint64(n))
}

func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Seed(int64)                         {}

// Read replaces crypto/rand.Read and math/rand.Read
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(next())
	}
	return len(b), nil
}

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

// Reader replaces crypto/rand.Reader
var Reader reader
