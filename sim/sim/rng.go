package sim

// Rng is a splitmix64 generator
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n)
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Int63() int64 { return int64(r.U64() >> 1) }

// Range returns a number in [a, b]
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Pct is true with the probability of p percent
func (r *Rng) Pct(p int) bool { return r.Intn(100) < p }

// Pick returns one of the values
func Pick[T any](r *Rng, v ...T) T { return v[r.Intn(len(v))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
