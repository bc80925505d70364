// Package absint is a path-sensitive, interprocedural abstract interpreter
// over the SSA form of a Go program.
//
// A state consists of symbolic values for the live SSA registers and for the
// memory cells that can be reached, a zone (difference bounds) over the
// integers among them and facts about the other symbols.  States that differ
// in anything but the zone are kept apart, states that only differ in the
// zone are joined.  Calls are handled with summaries: the exits of a function
// for an abstract entry, computed to a fixed point for recursive functions.
package absint

import (
	"fmt"
	"sort"
	"strings"
)

// Sym names an unknown value. 0 is the constant zero in zones.
type Sym int32

const inf = int64(1) << 60

// Zone is a closed set of constraints a - b <= c.
type Zone struct {
	syms []Sym // syms[0] == 0
	idx  map[Sym]int
	m    [][]int64 // m[i][j]: syms[i] - syms[j] <= m[i][j]
}

// NewZone returns a zone without constraints.
func NewZone() *Zone {
	return &Zone{syms: []Sym{0}, idx: map[Sym]int{0: 0}, m: [][]int64{{0}}}
}

// Clone copies a zone.
func (z *Zone) Clone() *Zone {
	n := &Zone{syms: append([]Sym(nil), z.syms...), idx: make(map[Sym]int, len(z.idx)), m: make([][]int64, len(z.m))}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	flat := make([]int64, len(z.m)*len(z.m))
	for i := range z.m {
		row := flat[i*len(z.m) : (i+1)*len(z.m) : (i+1)*len(z.m)]
		copy(row, z.m[i])
		n.m[i] = row
	}
	return n
}

func (z *Zone) add(s Sym) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	i := len(z.syms)
	z.idx[s] = i
	z.syms = append(z.syms, s)
	for r := range z.m {
		z.m[r] = append(z.m[r], inf)
	}
	row := make([]int64, i+1)
	for j := range row {
		row[j] = inf
	}
	row[i] = 0
	z.m = append(z.m, row)
	return i
}

// Bound returns the best known c with a - b <= c.
func (z *Zone) Bound(a, b Sym) int64 {
	if a == b {
		return 0
	}
	i, ok := z.idx[a]
	if !ok {
		return inf
	}
	j, ok := z.idx[b]
	if !ok {
		return inf
	}
	return z.m[i][j]
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	r := a + b
	if r >= inf {
		return inf
	}
	if r < -inf {
		return -inf
	}
	return r
}

// Assert adds a - b <= c, it returns false if that makes the zone empty.
func (z *Zone) Assert(a, b Sym, c int64) bool {
	if c >= inf {
		return true
	}
	if a == b {
		return c >= 0
	}
	i, j := z.add(a), z.add(b)
	if z.m[i][j] <= c {
		return true
	}
	if satAdd(c, z.m[j][i]) < 0 {
		return false
	}
	z.m[i][j] = c
	n := len(z.m)
	for p := 0; p < n; p++ {
		pi := z.m[p][i]
		if p != i && pi >= inf {
			continue
		}
		if p == i {
			pi = 0
		}
		for q := 0; q < n; q++ {
			jq := z.m[j][q]
			if q == j {
				jq = 0
			}
			if jq >= inf {
				continue
			}
			v := satAdd(satAdd(pi, c), jq)
			if p == q {
				if v < 0 {
					return false
				}
				continue
			}
			if v < z.m[p][q] {
				z.m[p][q] = v
			}
		}
	}
	return true
}

// Keep projects the zone on the given symbols.
func (z *Zone) Keep(keep func(Sym) bool) *Zone {
	n := NewZone()
	var at []int
	for i, s := range z.syms {
		if i == 0 || keep(s) {
			at = append(at, i)
			if i != 0 {
				n.idx[s] = len(n.syms)
				n.syms = append(n.syms, s)
			}
		}
	}
	n.m = make([][]int64, len(at))
	for p, i := range at {
		n.m[p] = make([]int64, len(at))
		for q, j := range at {
			n.m[p][q] = z.m[i][j]
		}
	}
	return n
}

// Constrained tells if anything is known about s besides lo <= s <= hi.
func (z *Zone) Constrained(s Sym, lo, hi int64) bool {
	i, ok := z.idx[s]
	if !ok {
		return false
	}
	for j := range z.syms {
		if j == i {
			continue
		}
		up, down := z.m[i][j], z.m[j][i]
		// what follows from the ranges of both
		var upT, downT int64 = inf, inf
		if j == 0 {
			upT, downT = hi, -lo
			if lo <= -inf {
				downT = inf
			}
		} else {
			if z.m[0][j] < inf && hi < inf {
				upT = satAdd(hi, z.m[0][j])
			}
			if z.m[j][0] < inf && lo > -inf {
				downT = satAdd(z.m[j][0], -lo)
			}
		}
		if up < upT || down < downT {
			return true
		}
	}
	return false
}

func (z *Zone) String() string {
	var out []string
	for i, a := range z.syms {
		for j, b := range z.syms {
			if i != j && z.m[i][j] < inf {
				out = append(out, fmt.Sprintf("%d-%d<=%d", a, b, z.m[i][j]))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// sameShape tells if both zones have the same symbols in the same order.
func sameShape(a, b *Zone) bool {
	if len(a.syms) != len(b.syms) {
		return false
	}
	for i := range a.syms {
		if a.syms[i] != b.syms[i] {
			return false
		}
	}
	return true
}

// leq tells if a implies b.
func zoneLeq(a, b *Zone) bool {
	if !sameShape(a, b) {
		for i, x := range b.syms {
			for j, y := range b.syms {
				if i != j && b.m[i][j] < inf && a.Bound(x, y) > b.m[i][j] {
					return false
				}
			}
		}
		return true
	}
	for i := range a.m {
		for j := range a.m {
			if a.m[i][j] > b.m[i][j] {
				return false
			}
		}
	}
	return true
}

var thresholds = []int64{-4, -2, -1, 0, 1, 2, 4, 8, 16, 255, 256, 1 << 32}

// joinZone returns the join of a (old) and b (new) or, if widen is set, their widening.
func joinZone(a, b *Zone, widen bool) *Zone {
	n := a.Clone()
	bound := func(i, j int) int64 { return b.m[i][j] }
	if !sameShape(a, b) {
		bound = func(i, j int) int64 { return b.Bound(a.syms[i], a.syms[j]) }
	}
	for i := range a.m {
		for j := range a.m {
			if i == j {
				continue
			}
			if v := bound(i, j); v > a.m[i][j] {
				if widen {
					w := inf
					for _, t := range thresholds {
						if v <= t {
							w = t
							break
						}
					}
					v = w
				}
				n.m[i][j] = v
			}
		}
	}
	// note that the result of widening is intentionally not closed again: closing it could prevent convergence
	if !widen {
		return n
	}
	return n
}
