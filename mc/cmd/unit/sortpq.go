package main

import (
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/sort"
	"golang.org/x/exp/constraints"
	"verif/mc/lab"
	"verif/mc/rt"
)

// ---- C20

var c20 = &rt.Check{
	ID: "C20",
	Rule: "all sequences of up to 7 (thorough 9) operations over {push of 6 different pairs, pop}, for 4 types of pairs; all orders of up to 8 pushes of distinct pairs followed by pops; " +
		"all sequences of 12 (thorough 16) pushes over two pairs and pops; queues filled with up to 200 pairs in 7 patterns, then every split into pops and pushes",
	Oracle: "a list kept in order: top and pop are the smallest pair by priority, then value; length and emptiness; empty top is nil",
	Run: func(c *rt.Ctx) {
		inf32 := float32(math.Inf(1))
		for first := 0; first < 7; first++ {
			f := first
			c.Unit(fmt.Sprint("float32/uint32 first=", f), func() {
				pqSeq(c, []interfaces.Pair[float32, uint32]{{0, 1}, {0, 0}, {-1, 7}, {1.5, 7}, {inf32, 2}, {-inf32, 3}}, f)
			})
			c.Unit(fmt.Sprint("float64/uint64 first=", f), func() {
				pqSeq(c, []interfaces.Pair[float64, uint64]{{0, 1 << 40}, {0, 1}, {-1e300, 7}, {1e-300, 7}, {math.Inf(1), 2}, {1, 3}}, f)
			})
			c.Unit(fmt.Sprint("int/string first=", f), func() {
				pqSeq(c, []interfaces.Pair[int, string]{{0, "a"}, {0, "b"}, {-1, ""}, {7, "a"}, {math.MaxInt, "x"}, {math.MinInt, "y"}}, f)
			})
			c.Unit(fmt.Sprint("float32/int first=", f), func() {
				pqSeq(c, []interfaces.Pair[float32, int]{{1, -1}, {1, 1}, {1, 0}, {1, 1}, {2, -5}, {0.5, 5}}, f)
			})
		}
		for n := 1; n <= 8; n++ {
			n := n
			c.Unit(fmt.Sprint("orders of ", n), func() { pqOrders(c, n) })
		}
		for first := 0; first < 3; first++ {
			f := first
			c.Unit(fmt.Sprint("long first=", f), func() { pqLong(c, f) })
		}
		for p := range patterns {
			p := p
			c.Unit("fill "+patterns[p].name, func() { pqFill(c, p) })
		}
		for _, n := range []int{255, 256, 257, 1000, 1025, 4097, 20000, 70000, 300001} {
			c.Unit(fmt.Sprint("large f32 u32 ", n), func() { pqLarge[float32, uint32](c, n) })
			c.Unit(fmt.Sprint("large f64 u64 ", n), func() { pqLarge[float64, uint64](c, n) })
		}
	},
}

// pqWorld is a queue and its model.
type pqWorld[T, S constraints.Ordered] struct {
	q *sort.PriorityQueue[T, S]
	m []interfaces.Pair[T, S] // ascending
	// what was popped belongs to the caller
	popped []*interfaces.Pair[T, S]
	was    []interfaces.Pair[T, S]
}

func newPQ[T, S constraints.Ordered]() *pqWorld[T, S] {
	return &pqWorld[T, S]{q: sort.NewPriorityQueue[T, S]()}
}

func less[T, S constraints.Ordered](a, b interfaces.Pair[T, S]) bool {
	return a.First < b.First || a.First == b.First && a.Second < b.Second
}

func (w *pqWorld[T, S]) push(p interfaces.Pair[T, S]) {
	w.q.Push(p.First, p.Second)
	i := len(w.m)
	for i > 0 && less(p, w.m[i-1]) {
		i--
	}
	w.m = append(w.m, p)
	copy(w.m[i+1:], w.m[i:])
	w.m[i] = p
}

// pop pops; "" or what is wrong.
func (w *pqWorld[T, S]) pop() string {
	p := w.q.Pop()
	if p == nil || p.First != w.m[0].First || p.Second != w.m[0].Second {
		return fmt.Sprintf("pop gives %v, smallest is %v of %v", p, w.m[0], w.m)
	}
	w.popped, w.was = append(w.popped, p), append(w.was, w.m[0])
	w.m = w.m[1:]
	return ""
}

func (w *pqWorld[T, S]) check() string {
	if w.q.Len() != len(w.m) || w.q.Empty() != (len(w.m) == 0) {
		return fmt.Sprintf("length %d, empty %v, expected %d", w.q.Len(), w.q.Empty(), len(w.m))
	}
	t := w.q.Top()
	if len(w.m) == 0 {
		if t != nil {
			return fmt.Sprintf("top of an empty queue is %v", t)
		}
	} else if t == nil || t.First != w.m[0].First || t.Second != w.m[0].Second {
		return fmt.Sprintf("top is %v, smallest is %v", t, w.m[0])
	}
	return ""
}

func (w *pqWorld[T, S]) drain() string {
	for len(w.m) > 0 {
		if msg := w.pop(); msg != "" {
			return msg
		}
		if msg := w.check(); msg != "" {
			return msg
		}
	}
	for i, p := range w.popped {
		if *p != w.was[i] {
			return fmt.Sprintf("element %d that was popped, %v, has become %v", i, w.was[i], *p)
		}
	}
	return ""
}

// pqLarge: n pushes, some pops, n pushes, and so on; then all are popped
func pqLarge[T interfaces.VectorType, S interfaces.IndexTypes](c *rt.Ctx, n int) {
	for p := range patterns {
		for _, part := range []int{0, 1, n / 2, n - 1, n} {
			c.Tick()
			c.Step(func() string { return fmt.Sprintf("%d pairs in pattern %s, pops of %d", n, patterns[p].name, part) })
			w := newPQ[T, S]()
			vals := patterns[p].f(n)
			for round := 0; round < 3; round++ {
				for i := range vals {
					x := interfaces.Pair[T, S]{First: T(vals[i]), Second: S(vals[n-1-i]) ^ S(round)}
					w.q.Push(x.First, x.Second)
					w.m = append(w.m, x)
				}
				slices.SortFunc(w.m, func(a, b interfaces.Pair[T, S]) int {
					if less(a, b) {
						return -1
					} else if less(b, a) {
						return 1
					}
					return 0
				})
				msg := w.check()
				for i := 0; i < part && msg == ""; i++ {
					if msg = w.pop(); msg == "" {
						msg = w.check()
					}
				}
				if msg != "" {
					c.Fail("%d pairs in pattern %s, pops of %d: %.300s", n, patterns[p].name, part, msg)
				}
			}
			if msg := w.drain(); msg != "" {
				c.Fail("%d pairs in pattern %s, pops of %d: %.300s", n, patterns[p].name, part, msg)
			}
			c.State(1)
			c.Transition(6 * n)
			c.Trace(1)
		}
	}
}

func pqPlay[T, S constraints.Ordered](c *rt.Ctx, alpha []interfaces.Pair[T, S], seq []int) {
	w := newPQ[T, S]()
	other := newPQ[T, S]() // must not notice anything
	other.push(alpha[0])
	msg := w.check()
	for i, op := range seq {
		if msg != "" {
			break
		}
		if op < len(alpha) {
			w.push(alpha[op])
		} else {
			if len(w.m) == 0 {
				return // popping an empty queue is not defined
			}
			msg = w.pop()
		}
		if msg == "" {
			msg = w.check()
		}
		if msg != "" {
			msg = fmt.Sprintf("step %d: %s", i, msg)
		}
		c.Transition(1)
	}
	if msg == "" {
		c.OutcomeHash(uint64(len(w.m))*1000003 + uint64(seq[0]*7+seq[len(seq)-1]))
		msg = w.drain()
	}
	if msg == "" {
		msg = other.check()
	}
	if msg != "" {
		c.Fail("operations %v over %v (%d is pop): %s", seq, alpha, len(alpha), msg)
	}
	c.State(1)
	c.Trace(1)
}

func pqSeq[T, S constraints.Ordered](c *rt.Ctx, alpha []interfaces.Pair[T, S], first int) {
	depth := 7
	if c.Thorough {
		depth = 9
	}
	for n := 1; n <= depth; n++ {
		lab.Sequences(len(alpha)+1, n-1, func(rest []int) {
			if n < depth && n > 3 { // prefixes of the longer ones
				return
			}
			c.Tick()
			pqPlay(c, alpha, append([]int{first}, rest...))
		})
	}
	c.Sample(func() string { return fmt.Sprintf("all sequences of %d operations over %v and pop", depth, alpha) })
}

func pqOrders(c *rt.Ctx, n int) {
	var base []interfaces.Pair[float32, uint32]
	for i := 0; i < n; i++ {
		base = append(base, interfaces.Pair[float32, uint32]{First: float32(i / 2), Second: uint32(i % 3)})
	}
	perms(n, func(p []int) {
		c.Tick()
		for brk := 0; brk < 3; brk++ { // pops in between
			w := newPQ[float32, uint32]()
			for i, x := range p {
				w.push(base[x])
				msg := w.check()
				if msg == "" && brk > 0 && i%(brk+1) == brk {
					msg = w.pop()
				}
				if msg != "" {
					c.Fail("pushes in order %v of %v: %s", p, base, msg)
				}
			}
			if msg := w.drain(); msg != "" {
				c.Fail("pushes in order %v of %v: %s", p, base, msg)
			}
			c.State(1)
			c.Transition(2 * n)
			c.Trace(1)
		}
	})
	c.Sample(func() string { return fmt.Sprintf("all orders of %v", base) })
}

func pqLong(c *rt.Ctx, first int) {
	n := 12
	if c.Thorough {
		n = 15
	}
	alpha := []interfaces.Pair[float64, uint32]{{1, 1}, {1, 0}}
	lab.Sequences(3, n-1, func(rest []int) {
		c.Tick()
		pqPlay(c, alpha, append([]int{first}, rest...))
	})
}

func pqFill(c *rt.Ctx, p int) {
	max := 200
	for n := 0; n <= max; n += 1 + n/20 {
		vals := patterns[p].f(n)
		for split := 0; split <= n; split += 1 + n/15 {
			c.Tick()
			w := newPQ[float32, uint32]()
			msg := ""
			for i := 0; i < n && msg == ""; i++ {
				w.push(interfaces.Pair[float32, uint32]{First: float32(vals[i]), Second: uint32(vals[n-1-i])})
				if i%(split+1) == split {
					msg = w.pop()
				}
				if msg == "" {
					msg = w.check()
				}
			}
			if msg == "" {
				msg = w.drain()
			}
			if msg != "" {
				c.Fail("%d pairs in pattern %s with pops: %s", n, patterns[p].name, msg)
			}
			c.State(1)
			c.Transition(n)
			c.Trace(1)
			c.Outcome(p, n, split)
		}
	}
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// ---- C21

var patterns = []struct {
	name string
	f    func(n int) []uint64
}{
	{"sorted", func(n int) []uint64 { return gen(n, func(i int) uint64 { return uint64(i) }) }},
	{"reversed", func(n int) []uint64 { return gen(n, func(i int) uint64 { return uint64(n - i) }) }},
	{"equal", func(n int) []uint64 { return gen(n, func(i int) uint64 { return 7 }) }},
	{"saw", func(n int) []uint64 { return gen(n, func(i int) uint64 { return uint64(i % 5) }) }},
	{"organ", func(n int) []uint64 {
		return gen(n, func(i int) uint64 { return uint64(math.Min(float64(i), float64(n-i))) })
	}},
	{"mixed", func(n int) []uint64 {
		return gen(n, func(i int) uint64 { x := uint64(i+1) * 2654435761; return (x ^ x>>13) % 100003 })
	}},
	{"few", func(n int) []uint64 {
		return gen(n, func(i int) uint64 { x := uint64(i+1) * 2654435761; return (x >> 7) % 3 })
	}},
	{"last", func(n int) []uint64 {
		return gen(n, func(i int) uint64 {
			if i == n-1 {
				return 0
			}
			return uint64(i + 1)
		})
	}},
	{"wide", func(n int) []uint64 {
		return gen(n, func(i int) uint64 { return uint64(i+1) * 0x9e3779b97f4a7c15 })
	}},
	{"high", func(n int) []uint64 { // all low bits are equal
		return gen(n, func(i int) uint64 { x := uint64(i+1) * 2654435761 % 4093; return x<<20 | x<<50 | 5 })
	}},
	{"extremes", func(n int) []uint64 {
		return gen(n, func(i int) uint64 { return []uint64{math.MaxUint32, 0, 1 << 31, 1}[i%4] })
	}},
}

var sortLengths = func() (l []int) {
	for n := 0; n < 1100; n++ {
		l = append(l, n)
	}
	for n := 1100; n < 20000; n += 1890 {
		l = append(l, n)
	}
	return append(l, 32767, 65535, 65536, 100003, 1<<20)
}()

func gen(n int, f func(i int) uint64) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

var c21 = &rt.Check{
	ID: "C21",
	Rule: "slices: all sequences up to length 7 (thorough 8) over 4 values, all permutations up to 8, every length 0..1100 (and to 2^20 in steps) x 11 patterns; pairs: sorts and partial sorts of 2^16 to 5000007 pairs; all sequences up to length 6 over 6 pairs with " +
		"repetition, same lengths x patterns; partial sorts: all sequences up to length 5 (6) over 4 pairs x every begin<=middle<=end, lengths 6..60 x every such range (thinned out) x patterns",
	Oracle: "ascending permutation (the very same pair objects); partial: the range begin..middle holds the smallest of begin..end in order, everything outside untouched",
	Run: func(c *rt.Ctx) {
		c21slices[uint32](c, "uint32")
		c21slices[uint64](c, "uint64")
		c21pairs[float32, uint32](c, "f32/u32")
		c21pairs[float64, uint64](c, "f64/u64")
		c21huge[float32, uint64](c, "f32/u64")
		c21huge[float64, uint32](c, "f64/u32")
	},
}

func c21slices[T interfaces.IndexTypes](c *rt.Ctx, ty string) {
	fs := []func([]T){sort.SortSlice[T], sort.SortSlice2[T], sort.SortSlice3[T]}
	one := func(fi int, in []T) {
		c.Tick()
		c.Step(func() string { return fmt.Sprintf("function %d of %v", fi+1, in) })
		// surroundings must stay as they are
		buf := make([]T, len(in)+2)
		buf[0], buf[len(in)+1] = 77, 78
		copy(buf[1:], in)
		s := buf[1 : len(in)+1 : len(in)+2]
		fs[fi](s)
		cnt := map[T]int{}
		for i, x := range s {
			cnt[x]++
			cnt[in[i]]--
			if i > 0 && s[i-1] > x {
				c.Fail("SortSlice%d of %d elements %v: %v is not ascending", fi+1, len(in), head(in), head(s))
			}
		}
		for x, n := range cnt {
			if n != 0 {
				c.Fail("SortSlice%d of %d elements %v: %v is no permutation (%d: %+d)", fi+1, len(in), head(in), head(s), x, n)
			}
		}
		if buf[0] != 77 || buf[len(in)+1] != 78 {
			c.Fail("SortSlice%d of %d elements: writes outside of the slice", fi+1, len(in))
		}
		c.State(1)
		c.Transition(1)
		if len(s) > 0 {
			c.OutcomeHash(uint64(s[0])*31 + uint64(s[len(s)/2])*17 + uint64(len(s)))
		}
	}
	for fi := range fs {
		fi := fi
		c.Unit(fmt.Sprintf("%s SortSlice%d all short", ty, fi+1), func() {
			alpha := []T{0, 1, 5, ^T(0)}
			max := 7
			if c.Thorough {
				max = 8
			}
			for n := 0; n <= max; n++ {
				lab.Sequences(len(alpha), n, func(seq []int) {
					in := make([]T, n)
					for i, x := range seq {
						in[i] = alpha[x]
					}
					one(fi, in)
				})
				perms(n, func(p []int) {
					in := make([]T, n)
					for i, x := range p {
						in[i] = T(x)
					}
					one(fi, in)
				})
			}
			c.Trace(1)
			c.Sample(func() string { return fmt.Sprintf("all sequences up to length %d over %v", max, alpha) })
		})
		for p := range patterns {
			p := p
			c.Unit(fmt.Sprintf("%s SortSlice%d %s", ty, fi+1, patterns[p].name), func() {
				for _, n := range sortLengths {
					in := make([]T, n)
					for i, x := range patterns[p].f(n) {
						in[i] = T(x)
					}
					one(fi, in)
				}
				c.Trace(1)
			})
		}
	}
}

func head[T any](s []T) []T {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

// c21huge: around the size at which the partial sort changes its algorithm, and more
func c21huge[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, ty string) {
	type P = interfaces.Pair[TV, TIX]
	part := map[string]func(interfaces.Pairs[TV, TIX], int, int, int){
		"PartialSortSlice":  sort.PartialSortSlice[TV, TIX],
		"PartialSortSlice2": sort.PartialSortSlice2[TV, TIX],
		"SortPairs":         func(s interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs(s) },
		"SortPairs2":        func(s interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs2(s) },
	}
	orders := []struct {
		name string
		at   func(i, n int) TV
	}{
		{"descending with duplicates", func(i, n int) TV { return TV((n - i) / 3 % 1000003) }},
		{"ascending", func(i, n int) TV { return TV(i) }},
		{"scattered", func(i, n int) TV { return TV(uint32(i+1) * 2654435761 >> 8) }},
		{"few values", func(i, n int) TV { return TV(i * 7 % 5) }},
	}
	for _, name := range []string{"PartialSortSlice", "PartialSortSlice2", "SortPairs", "SortPairs2"} {
		name := name
		c.Unit(fmt.Sprintf("%s %s huge", ty, name), func() {
			sizes := []int{1 << 16, 1<<17 + 1, 1<<19 + 3, 5000000, 5000007}
			if c.Thorough {
				sizes = []int{1<<16 - 1, 1 << 16, 1<<17 + 1, 1<<18 + 2, 1<<19 + 3, 1 << 20, 4999999, 5000000, 5000001, 5000007, 1 << 23}
			}
			for _, n := range sizes {
				arena := make([]P, n)
				s := make(interfaces.Pairs[TV, TIX], n)
				cuts := [][3]int{{0, 1, 0}, {0, 17, 0}, {3, 40, 2}}
				full := strings.HasPrefix(name, "SortPairs")
				if full {
					if n > 1<<20 && !c.Thorough {
						break
					}
					cuts = [][3]int{{0, n, 0}}
				} else if n < 1<<18 {
					cuts = append(cuts, [3]int{0, n / 2, 0}, [3]int{5, n - 9, 2})
				}
				for oi := 0; oi < len(orders)*len(cuts); oi++ {
					cut, o := cuts[oi/len(orders)], orders[oi%len(orders)]
					if n > 1<<20 && !c.Thorough && oi%len(orders) != 0 {
						continue
					}
					b, m, e := cut[0], cut[0]+cut[1], n-cut[2]
					c.Tick()
					c.Step(func() string { return fmt.Sprintf("%s %d..%d..%d of %d pairs, %s", name, b, m, e, n, o.name) })
					for i := range s {
						arena[i] = P{o.at(i, n), TIX(i)}
						s[i] = &arena[i]
					}
					arena[e-1].First = -5 // the smallest at the end
					part[name](s, b, m, e)
					seen := make([]bool, n)
					for i, p := range s {
						j := int(p.Second)
						if j >= n || seen[j] || p != &arena[j] || (i < b || i >= e) && j != i {
							c.Fail("%s %d..%d..%d of %d pairs: no permutation of the range at %d", name, b, m, e, n, i)
						}
						seen[j] = true
						if i > b && i < m && less(*p, *s[i-1]) {
							c.Fail("%s %d..%d..%d of %d pairs: not ascending at %d", name, b, m, e, n, i)
						}
						if i >= m && i < e && less(*p, *s[m-1]) {
							c.Fail("%s %d..%d..%d of %d pairs: element %d (%v) is smaller than the last one before middle (%v)", name, b, m, e, n, i, *p, *s[m-1])
						}
					}
					c.State(1)
					c.Transition(1)
				}
				c.Trace(1)
			}
		})
	}
}

func c21pairs[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *rt.Ctx, ty string) {
	type P = interfaces.Pair[TV, TIX]
	show := func(s []*P) string {
		out := ""
		for i, p := range s {
			if i > 60 {
				break
			}
			out += fmt.Sprintf("(%v,%v) ", p.First, p.Second)
		}
		return out
	}
	check := func(name string, in, s []*P, begin, middle, end int) {
		bad := func(what string) {
			c.Fail("%s %d..%d..%d of %d pairs %s: %s: %s", name, begin, middle, end, len(in), show(in), what, show(s))
		}
		if len(s) != len(in) {
			bad("other length")
		}
		for i := range s {
			if (i < begin || i >= end) && s[i] != in[i] {
				bad(fmt.Sprintf("element %d outside of the range is touched", i))
			}
		}
		pos := map[*P]int{}
		for i := begin; i < end; i++ {
			pos[s[i]]++
			pos[in[i]]--
		}
		for _, n := range pos {
			if n != 0 {
				bad("no permutation")
			}
		}
		for i := begin; i < middle; i++ {
			if i > begin && less(*s[i], *s[i-1]) {
				bad("not ascending")
			}
		}
		if middle > begin {
			for i := middle; i < end; i++ {
				if less(*s[i], *s[middle-1]) {
					bad(fmt.Sprintf("element %d behind middle is smaller than the last one before", i))
				}
			}
		}
		c.State(1)
		c.Transition(1)
	}
	vals := func(s []*P) []P {
		out := make([]P, len(s))
		for i, p := range s {
			out[i] = *p
		}
		return out
	}
	run := func(name string, f func(interfaces.Pairs[TV, TIX], int, int, int), in []*P, b, m, e int) {
		c.Tick()
		c.Step(func() string { return fmt.Sprintf("%s %d..%d..%d of %s", name, b, m, e, show(in)) })
		s := append([]*P(nil), in...)
		before := vals(in)
		f(s, b, m, e)
		for i, p := range in {
			if *p != before[i] {
				c.Fail("%s %d..%d..%d changes the contents of a pair of %s", name, b, m, e, show(in))
			}
		}
		check(name, in, s, b, m, e)
		if len(s) > 0 {
			c.OutcomeHash(uint64(s[b%len(s)].Second)*31 + uint64(len(s))*7 + uint64(m))
		}
	}
	full := map[string]func(interfaces.Pairs[TV, TIX], int, int, int){
		"SortPairs":  func(s interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs(s) },
		"SortPairs2": func(s interfaces.Pairs[TV, TIX], _, _, _ int) { sort.SortPairs2(s) },
	}
	part := map[string]func(interfaces.Pairs[TV, TIX], int, int, int){
		"PartialSortSlice":  sort.PartialSortSlice[TV, TIX],
		"PartialSortSlice2": sort.PartialSortSlice2[TV, TIX],
	}
	alpha := []P{{0, 1}, {0, 0}, {-1, 9}, {2.5, 1}, {TV(math.Inf(1)), 0}, {2.5, 2}}
	mk := func(seq []int) []*P {
		out := make([]*P, len(seq))
		for i, x := range seq {
			p := alpha[x]
			out[i] = &p
		}
		return out
	}
	pat := func(p, n int) []*P {
		v := patterns[p].f(n)
		out := make([]*P, n)
		for i := range out {
			out[i] = &P{TV(v[i]), TIX(v[(i*7+3)%n])}
		}
		return out
	}
	max := 6
	if c.Thorough {
		max = 7
	}
	for _, name := range []string{"SortPairs", "SortPairs2"} {
		name, f := name, full[name]
		c.Unit(ty+" "+name+" all short", func() {
			for n := 0; n <= max; n++ {
				lab.Sequences(len(alpha), n, func(seq []int) { run(name, f, mk(seq), 0, n, n) })
			}
			c.Trace(1)
		})
		for p := range patterns {
			p := p
			c.Unit(ty+" "+name+" "+patterns[p].name, func() {
				for n := 1; n <= 5000; {
					run(name, f, pat(p, n), 0, n, n)
					if n < 600 {
						n++
					} else {
						n += 1100
					}
				}
				c.Trace(1)
			})
		}
	}
	for _, name := range []string{"PartialSortSlice", "PartialSortSlice2"} {
		name, f := name, part[name]
		c.Unit(ty+" "+name+" all short", func() {
			for n := 0; n < max; n++ {
				lab.Sequences(4, n, func(seq []int) {
					for b := 0; b <= n; b++ {
						for m := b; m <= n; m++ {
							for e := m; e <= n; e++ {
								run(name, f, mk(seq), b, m, e)
							}
						}
					}
				})
			}
			c.Trace(1)
			c.Sample(func() string { return "all sequences, all ranges" })
		})
		for p := range patterns {
			p := p
			c.Unit(ty+" "+name+" "+patterns[p].name, func() {
				for n := 6; n <= 60; n++ {
					step := 1 + n/9
					if c.Thorough {
						step = 1 + n/25
					}
					for b := 0; b <= n; b += step {
						for e := n; e >= b; e -= step {
							for m := b; m <= e; m += step {
								run(name, f, pat(p, n), b, m, e)
							}
							run(name, f, pat(p, n), b, e, e)
							if e > b {
								run(name, f, pat(p, n), b, b+1, e)
							}
						}
					}
					for m := 0; m <= n; m++ {
						run(name, f, pat(p, n), 0, m, n)
					}
				}
				for _, n := range []int{150, 700, 3000} {
					for _, m := range []int{0, 1, 14, 15, 16, 17, 20, 21, n - 1, n} {
						run(name, f, pat(p, n), 0, m, n)
						run(name, f, pat(p, n), 3, 3+m/2, n-2)
					}
				}
				c.Trace(1)
			})
		}
	}
}
