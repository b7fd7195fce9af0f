package h

import (
	"math"

	"vh/sym"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
)

// ---- sorting ----

type (
	pair  = interfaces.Pair[float32, uint32]
	pairs = interfaces.Pairs[float32, uint32]
)

func anyPairs(n int, f func(string) float32) pairs {
	s := make(pairs, n)
	for i := range s {
		s[i] = &pair{First: f("key"), Second: uint32(i)}
	}
	return s
}

// fewPairs: most keys are given, two are arbitrary.
func fewPairs(n int) pairs {
	s := make(pairs, n)
	for i := range s {
		s[i] = &pair{First: math.Float32frombits(0x40000000 | uint32((i*7)%n*9)<<18), Second: uint32(i)}
		if i == n/3 || i == n-1 {
			s[i].First = ordf("key")
		}
	}
	return s
}

// permuted asserts that s holds the pairs of o, unchanged, and those outside of
// [begin,end) in their places.
func permuted(o, s pairs, begin, end int, keys []float32) {
	sym.Assert(len(o) == len(s), "sorting changes the number of pairs")
	seen := make([]bool, len(o))
	for i := range s {
		sym.Assert(s[i] != nil, "a pair is lost")
		k := int(s[i].Second)
		sym.Assert(k < len(o) && s[i] == o[k] && !seen[k], "sorting loses or duplicates a pair")
		seen[k] = true
		sym.Assert(eqf(s[i].First, keys[k]), "sorting changes a pair")
		if i < begin || i >= end {
			sym.Assert(k == i, "sorting moves a pair outside of its range")
		}
	}
}

func keysOf(s pairs) []float32 {
	k := make([]float32, len(s))
	for i := range s {
		k[i] = s[i].First
	}
	return k
}

// smallest asserts that [begin,middle) holds the smallest pairs of [begin,end) in order.
func smallest(s pairs, begin, middle, end int) {
	for i := begin; i+1 < middle; i++ {
		sym.Assert(le32(s[i].First, s[i+1].First), "the smallest pairs are not in order")
		sym.Assert(s[i].Second < s[i+1].Second || s[i].First != s[i+1].First, "equal pairs are not in order of their ids")
	}
	for i := middle; i < end; i++ {
		sym.Assert(le32(s[middle-1].First, s[i].First), "a smaller pair is left out")
		sym.Assert(s[middle-1].Second < s[i].Second || s[middle-1].First != s[i].First, "an equal pair of a smaller id is left out")
	}
}

func partial(s pairs, begin, middle, end int, f func(pairs, int, int, int)) {
	o := append(pairs(nil), s...)
	keys := keysOf(s)
	f(s, begin, middle, end)
	permuted(o, s, begin, end, keys)
	if begin < middle && middle <= end {
		smallest(s, begin, middle, end)
	}
}

func part1(s pairs, b, m, e int) { sort.PartialSortSlice(s, b, m, e) }
func part2(s pairs, b, m, e int) { sort.PartialSortSlice2(s, b, m, e) }

// C15Partial: any keys, any range.
func C15Partial() {
	n := sym.Pick("n", 1, 4)
	b := sym.Pick("begin", 0, 3)
	m := sym.Pick("middle", 0, 4)
	e := sym.Pick("end", 0, 4)
	sym.Assume(b <= n && e <= n && m <= n)
	partial(anyPairs(n, ordm), b, m, e, part1)
}

// C15Five: 5 pairs from the start.
func C15Five() { partial(anyPairs(5, ordf), 0, sym.Pick("middle", 1, 5), 5, part1) }

// C15FiveDeep: 6 pairs.
func C15SixDeep() { partial(anyPairs(6, ordf), 0, sym.Pick("middle", 1, 6), 6, part1) }

// C15Many: more than 20 pairs.
func C15Many() {
	n := sym.Pick("n", 0, 2)*2 + 20
	b := sym.Pick("begin", 0, 1) * 2
	partial(fewPairs(n), b, b+[]int{1, 15, 16, 18}[sym.Pick("middle", 0, 3)], n-sym.Pick("end", 0, 1), part1)
}

// C15Heap: the variant that uses a heap.
func C15Heap() {
	n := sym.Pick("n", 1, 4)
	m := sym.Pick("middle", 1, 4)
	sym.Assume(m <= n)
	partial(anyPairs(n, ordm), 0, m, n, part2)
}

// C15HeapRange: ranges within the slice.
func C15HeapRange() {
	b, e := sym.Pick("begin", 0, 1), sym.Pick("end", 3, 4)
	m := sym.Pick("middle", 1, 3)
	sym.Assume(b < m)
	partial(anyPairs(4, ordf), b, m, e, part2)
}

// C15HeapMany: larger heaps.
func C15HeapMany() {
	n := sym.Pick("n", 9, 12)
	partial(fewPairs(n), 0, sym.Pick("middle", 1, 9), n, part2)
}

// C15Pairs: both sorters of pairs.
func C15Pairs() {
	n := sym.Pick("n", 0, 5)
	s := anyPairs(n, ordf)
	o := append(pairs(nil), s...)
	keys := keysOf(s)
	if sym.Pick("sorter", 0, 1) == 0 {
		sort.SortPairs(s)
	} else {
		sort.SortPairs2(s)
	}
	permuted(o, s, 0, n, keys)
	if n > 0 {
		smallest(s, 0, n, n)
	}
}

// C15PairsMany: larger inputs.
func C15PairsMany() {
	n := sym.Pick("n", 11, 14)
	s := fewPairs(n)
	o := append(pairs(nil), s...)
	keys := keysOf(s)
	if sym.Pick("sorter", 0, 1) == 0 {
		sort.SortPairs(s)
	} else {
		sort.SortPairs2(s)
	}
	permuted(o, s, 0, n, keys)
	smallest(s, 0, n, n)
}

// C15NaN: keys that are not ordered; nothing is lost.
func C15NaN() {
	s := anyPairs(sym.Pick("n", 1, 3), ordn)
	o := append(pairs(nil), s...)
	keys := keysOf(s)
	n := len(s)
	m := sym.Pick("middle", 1, 3)
	sym.Assume(m <= n)
	switch sym.Pick("sorter", 0, 2) {
	case 0:
		sort.PartialSortSlice(s, 0, m, n)
	case 1:
		sort.PartialSortSlice2(s, 0, m, n)
	case 2:
		sort.SortPairs2(s)
	}
	permuted(o, s, 0, n, keys)
}

// ids asserts that s is sorted and holds the numbers of o.
func sortedIds(o, s []uint32) {
	sym.Assert(len(o) == len(s), "sorting changes the number of ids")
	for i := 0; i+1 < len(s); i++ {
		sym.Assert(s[i] <= s[i+1], "ids are not sorted")
	}
	for _, x := range o {
		a, b := 0, 0
		for j := range o {
			a += sym.IteInt(o[j] == x, 1, 0)
			b += sym.IteInt(s[j] == x, 1, 0)
		}
		sym.Assert(a == b, "sorting loses or duplicates an id")
	}
}

func sortIds(k int, s []uint32) {
	switch k {
	case 0:
		sort.SortSlice(s)
	case 1:
		sort.SortSlice2(s)
	case 2:
		sort.SortSlice3(s)
	}
}

// C15Ids: the sorters of ids.
func C15Ids() {
	n := sym.Pick("n", 0, 4)
	s := make([]uint32, n)
	for i := range s {
		s[i] = sym.U32("id")
	}
	o := append([]uint32(nil), s...)
	sortIds(sym.Pick("sorter", 0, 2), s)
	sortedIds(o, s)
}

// C15IdsMany: longer slices with many repetitions.
func C15IdsMany() {
	n := []int{13, 40, 120, 520}[sym.Pick("n", 0, 3)]
	k := sym.Pick("sorter", 0, 2)
	s := make([]uint32, n)
	for i := range s {
		s[i] = uint32(i * 37 % 29)
		if i == 5 && k == 1 && n < 500 {
			s[i] = uint32(sym.U8("id"))
		}
	}
	o := append([]uint32(nil), s...)
	sortIds(k, s)
	for i := 0; i+1 < n; i++ {
		sym.Assert(s[i] <= s[i+1], "ids are not sorted")
	}
	var a, b, c, d uint32
	for i := range s {
		a += o[i]
		b += s[i]
		c += o[i] * o[i]
		d += s[i] * s[i]
	}
	sym.Assert(a == b && c == d, "sorting loses or duplicates an id")
}

// C15Wide: 64 bit ids and keys.
func C15Wide() {
	n := sym.Pick("n", 1, 4)
	s := make([]*interfaces.Pair[float64, uint64], n)
	for i := range s {
		s[i] = &interfaces.Pair[float64, uint64]{First: float64(ordm("key")), Second: uint64(i) << 40}
	}
	m := sym.Pick("middle", 1, 4)
	sym.Assume(m <= n)
	sort.PartialSortSlice(s, 0, m, n)
	seen := map[uint64]bool{}
	for i := range s {
		sym.Assert(!seen[s[i].Second], "sorting duplicates a pair")
		seen[s[i].Second] = true
		if i > 0 && i < m {
			sym.Assert(sym.Not(s[i].First < s[i-1].First), "the smallest pairs are not in order")
		}
		if i >= m {
			sym.Assert(sym.Not(s[i].First < s[m-1].First), "a smaller pair is left out")
		}
	}
	ids := []uint64{sym.U64("id"), sym.U64("id"), sym.U64("id")}
	a := ids[0] ^ ids[1] ^ ids[2]
	sort.SortSlice(ids)
	sym.Assert(ids[0] <= ids[1] && ids[1] <= ids[2] && ids[0]^ids[1]^ids[2] == a, "ids are not sorted")
}

// C15Functions: the sorter made of functions calls them with what it is given.
func C15Functions() {
	called := ""
	f := &interfaces.SorterFunctions[float32, uint32]{
		SortSliceFunc:        func(s []uint32) { called += "a"; sort.SortSlice(s) },
		SortPairsFunc:        func(s []*pair) { called += "b"; sort.SortPairs(s) },
		PartialSortSliceFunc: func(s pairs, b, m, e int) { called += "c"; sort.PartialSortSlice(s, b, m, e) },
	}
	ids := []uint32{sym.U32("id"), sym.U32("id")}
	o := append([]uint32(nil), ids...)
	f.SortSlice(ids)
	sortedIds(o, ids)
	s := anyPairs(3, ordf)
	c := append(pairs(nil), s...)
	k := keysOf(s)
	f.PartialSortSlice(s, 0, 2, 3)
	permuted(c, s, 0, 3, k)
	smallest(s, 0, 2, 3)
	f.SortPairs(s)
	permuted(c, s, 0, 3, k)
	smallest(s, 0, 3, 3)
	sym.Assert(called == "acb", "another function is called")
}
