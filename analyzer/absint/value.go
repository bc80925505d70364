package absint

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ObjID names a memory object of a state.
type ObjID int32

// Val is an abstract value.
type Val interface{}

type (
	// VInt is the integer S + K, it is the constant K if S is 0.
	VInt struct {
		S Sym
		K int64
	}
	// VBool is a boolean, S names it if it is unknown.
	VBool struct {
		S        Sym
		Known, B bool
	}
	// VNil is the nil of any type.
	VNil struct{}
	// VRef is a value of which only the identity is known.
	VRef struct{ S Sym }
	// VPtr points at a cell.
	VPtr struct {
		O ObjID
		P string
	}
	// VStr is a string.
	VStr struct {
		S   Sym
		Len VInt
		C   *Content
	}
	// VSlice is a slice, Base holds the elements if it is not 0.
	VSlice struct {
		S    Sym
		Base ObjID
		Len  VInt
		C    *Content
		Hist []Checkpoint
	}
	// Checkpoint is an earlier length of a slice with the content it had by then.
	Checkpoint struct {
		Len VInt
		C   *Content
	}
	// VAgg is a struct or array value by cell path.
	VAgg struct {
		T     types.Type
		Zero  bool // missing cells are zero instead of unknown
		Cells map[string]Val
		Tag   string
	}
	// VTuple is the result of a call with multiple results.
	VTuple struct{ E []Val }
	// VFunc is a function with its free variables.
	VFunc struct {
		Fn *ssa.Function
		B  []Val
	}
	// VIface is an interface holding a value of a known type.
	VIface struct {
		T types.Type
		V Val
	}
)

// Set is a set of the integers 0..255.
type Set [4]uint64

// FullSet holds 0..255.
var FullSet = Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// Has tells if i is in s.
func (s *Set) Has(i int) bool { return i >= 0 && i < 256 && s[i>>6]&(1<<(i&63)) != 0 }

// Add adds i to s.
func (s *Set) Add(i int) {
	if i >= 0 && i < 256 {
		s[i>>6] |= 1 << (i & 63)
	}
}

// SetOf returns the set of the bytes of a string.
func SetOf(str string) Set {
	var s Set
	for i := 0; i < len(str); i++ {
		s.Add(int(str[i]))
	}
	return s
}

// RangeSet returns lo..hi.
func RangeSet(lo, hi int64) Set {
	var s Set
	if lo < 0 {
		lo = 0
	}
	if hi > 255 {
		hi = 255
	}
	for i := lo; i <= hi; i++ {
		s.Add(int(i))
	}
	return s
}

// And returns the intersection.
func (s Set) And(o Set) Set {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}

// Or returns the union.
func (s Set) Or(o Set) Set {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}

// Minus returns the difference.
func (s Set) Minus(o Set) Set {
	for i := range s {
		s[i] &^= o[i]
	}
	return s
}

// Empty tells if s has no elements.
func (s Set) Empty() bool { return s == Set{} }

// Sub tells if s is a subset of o.
func (s Set) Sub(o Set) bool { return s.Minus(o).Empty() }

// Count returns the number of elements.
func (s Set) Count() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

// Min returns the smallest element.
func (s Set) Min() int {
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			return i
		}
	}
	return -1
}

// Max returns the largest element.
func (s Set) Max() int {
	for i := 255; i >= 0; i-- {
		if s.Has(i) {
			return i
		}
	}
	return -1
}

func (s Set) String() string {
	var out []string
	for i := 0; i < 256; i++ {
		if !s.Has(i) {
			continue
		}
		j := i
		for j+1 < 256 && s.Has(j+1) {
			j++
		}
		if i == j {
			out = append(out, fmt.Sprint(i))
		} else {
			out = append(out, fmt.Sprintf("%d-%d", i, j))
		}
		i = j
	}
	return "{" + strings.Join(out, ",") + "}"
}

// Fact is what is known about a symbol besides the zone.
type Fact struct {
	Nil   int8 // 1 = nil, 2 = not nil
	Truth int8 // 1 = false, 2 = true
	Disc  bool // Set is part of the identity of a state instead of joined
	HasS  bool
	Set   Set
	Tag   string // where the value comes from
	T     types.Type
}

// Obj is a memory object.
type Obj struct {
	T     types.Type
	Zero  bool // missing cells are zero instead of unknown
	Sym   bool // found behind an unknown pointer, so other objects could be the same one
	Name  string
	Cells map[string]Val
}

func (o *Obj) clone() *Obj {
	n := *o
	n.Cells = make(map[string]Val, len(o.Cells)+1)
	for k, v := range o.Cells {
		n.Cells[k] = v
	}
	return &n
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
