package h

import (
	"vh/sym"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// ---- random generators ----

// kiss32 is the published 32 bit KISS generator.
type kiss32 struct{ x, y, z, c uint32 }

func newKiss32(seed uint32) *kiss32 {
	if seed == 0 {
		seed = 123456789
	}
	return &kiss32{seed, 362436000, 521288629, 7654321}
}

func (k *kiss32) next() uint32 {
	k.x = 69069*k.x + 12345
	k.y ^= k.y << 13
	k.y ^= k.y >> 17
	k.y ^= k.y << 5
	t := uint64(698769069)*uint64(k.z) + uint64(k.c)
	k.c = uint32(t >> 32)
	k.z = uint32(t)
	return k.x + k.y + k.z
}

// kiss64 is the published 64 bit KISS generator.
type kiss64 struct{ x, y, z, c uint64 }

func newKiss64(seed uint64) *kiss64 {
	if seed == 0 {
		seed = 1234567890987654321
	}
	return &kiss64{seed, 362436362436362436, 1066149217761810, 123456123456123456}
}

func (k *kiss64) next() uint64 {
	k.z = 6906969069*k.z + 1234567
	k.y ^= k.y << 13
	k.y ^= k.y >> 17
	k.y ^= k.y << 43
	t := k.x<<58 + k.c
	k.c = k.x >> 6
	k.x += t
	if k.x < t {
		k.c++
	}
	return k.x + k.y + k.z
}

// C14Kiss32: the first draws for every seed.
func C14Kiss32() {
	s := sym.U32("seed")
	r, k := random.NewKiss32Random(s), newKiss32(s)
	for i := 0; i < 6; i++ {
		sym.Assert(r.Next() == k.next(), "the generator differs from KISS")
	}
}

// C14Kiss64: the same for 64 bits.
func C14Kiss64() {
	s := sym.U64("seed")
	r, k := random.NewKiss64Random(s), newKiss64(s)
	for i := 0; i < 6; i++ {
		sym.Assert(r.Next() == k.next(), "the generator differs from KISS")
	}
}

// C14Long: the draws after many others (given seeds).
func C14Long() {
	s := uint64(sym.Pick("seed", 0, 4)) * 0x9e3779b97f4a7c15
	n := sym.Pick("n", 0, 2) * 150
	r, k := random.NewKiss32Random(uint32(s)), newKiss32(uint32(s))
	r2, k2 := random.NewKiss64Random(s), newKiss64(s)
	for i := 0; i < n; i++ {
		sym.Assert(r.Next() == k.next(), "the generator differs from KISS")
		sym.Assert(r2.Next() == k2.next(), "the generator differs from KISS")
	}
}

// same asserts that two generators draw the same from now on.
func sameDraws[T interfaces.IndexTypes](a, b interfaces.Random[T]) {
	sym.Assert(a.GetSeed() == b.GetSeed(), "another seed")
	for i := 0; i < 2; i++ {
		sym.Assert(a.Next() == b.Next(), "other draws")
	}
	sym.Assert(a.NextSide() == b.NextSide(), "another side")
	sym.Assert(a.NextIndex(7) == b.NextIndex(7), "another index")
}

// protocol: what every generator must do, whatever its seed and the draws before.
func protocol[T interfaces.IndexTypes](mk func(T) interfaces.Random[T], seed, other, n T, draws int) {
	r := mk(seed)
	sym.Assert(seed == 0 || r.GetSeed() == seed, "the seed is lost")
	for i := 0; i < draws; i++ {
		x := r.NextIndex(n)
		sym.Assert(x < n, "an index is out of range")
		s := r.NextSide()
		sym.Assert(sym.Or(s == interfaces.SideLeft, s == interfaces.SideRight), "a side is neither left nor right")
	}
	sym.Assert(seed == 0 || r.GetSeed() == seed, "drawing changes the seed")
	// a reset clone starts over
	twin := mk(seed)
	switch sym.Pick("part", 0, 3) {
	case 0:
		sameDraws(r.CloneAndReset(), twin)
	case 1: // and is independent
		c := r.CloneAndReset()
		c.Next()
		sameDraws(r.CloneAndReset(), twin)
	case 2: // the clone of a reseeded generator is that of the seed
		r.SetSeed(other)
		sym.Assert(r.GetSeed() == other, "the seed is not set")
		sameDraws(r.CloneAndReset(), mk(other))
	case 3: // a clone reseeded, as a worker does it
		a, b := twin.CloneAndReset(), mk(seed)
		a.SetSeed(other)
		b.SetSeed(other)
		sym.Assert(twin.GetSeed() == mk(seed).GetSeed(), "reseeding a clone changes its original")
		sameDraws(a, b)
	}
}

// C14Protocol32: any seeds.
func C14Protocol32() {
	n := sym.U32("n")
	sym.Assume(n > 0)
	protocol(func(s uint32) interfaces.Random[uint32] { return random.NewKiss32Random(s) }, sym.U32("seed"), sym.U32("other"), n, 2)
}

// C14Protocol64: any seeds.
func C14Protocol64() {
	n := sym.U64("n")
	sym.Assume(n > 0)
	protocol(func(s uint64) interfaces.Random[uint64] { return random.NewKiss64Random(s) }, sym.U64("seed"), sym.U64("other"), n, 1)
}

// C14Go: the generator of the standard library, any seeds.
func C14Go() {
	n := []uint32{1, 2, 3, 1000, 1<<31 - 1}[sym.Pick("n", 0, 4)]
	protocol(func(s uint32) interfaces.Random[uint32] { return random.NewGoRandomWithSeed(s) }, sym.U32("seed"), sym.U32("other"), n, 2)
}

// C14Streams: generators of different seeds draw different numbers, even right away.
func C14Streams() {
	s := sym.U32("seed")
	w := sym.U32("worker")
	sym.Assume(w > 0 && s != 0 && s+w != 0)
	a, b := random.NewKiss32Random(s).CloneAndReset(), random.NewKiss32Random(s).CloneAndReset()
	b.SetSeed(b.GetSeed() + w)
	sym.Assert(a.Next() != b.Next(), "two workers draw the same numbers")
	sym.Assert(a.Next() != b.Next(), "two workers draw the same numbers")
}

// C14Streams64: the same for 64 bits.
func C14Streams64() {
	s := sym.U64("seed")
	w := sym.U64("worker")
	sym.Assume(w > 0 && s != 0 && s+w != 0)
	a, b := random.NewKiss64Random(s).CloneAndReset(), random.NewKiss64Random(s).CloneAndReset()
	b.SetSeed(b.GetSeed() + w)
	sym.Assert(sym.Or(a.Next() != b.Next(), sym.Or(a.Next() != b.Next(), a.Next() != b.Next())), "two workers draw the same numbers")
}

// C14Sides: both sides come up within a few draws, whatever the seed.
func C14Sides() {
	r := random.NewKiss32Random(sym.U32("seed"))
	k := newKiss32(sym.U32("seed2"))
	_ = k
	l, x := false, false
	for i := 0; i < 40; i++ {
		s := r.NextSide()
		l = sym.Or(l, s == interfaces.SideLeft)
		x = sym.Or(x, s == interfaces.SideRight)
	}
	sym.Assert(sym.And(l, x), "one side never comes up")
}

// C14NextSide: the side is the parity of the draw.
func C14NextSide() {
	s := sym.U64("seed")
	a, b := random.NewKiss64Random(s), random.NewKiss64Random(s)
	c, d := random.NewKiss32Random(uint32(s)), random.NewKiss32Random(uint32(s))
	for i := 0; i < 2; i++ {
		sym.Assert((a.NextSide() == interfaces.SideLeft) == (b.Next()&1 == 1), "side of a draw")
		sym.Assert((c.NextSide() == interfaces.SideLeft) == (d.Next()&1 == 1), "side of a draw")
	}
	n := sym.U32("n")
	sym.Assume(n > 0)
	sym.Assert(c.NextIndex(n) == d.Next()%n, "index of a draw")
}
