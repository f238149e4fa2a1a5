package main

// Symbolic values and the heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// unsup is raised (as a Go panic) by anything the encoder does not model; the
// path is then reported as undecided.
type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) Value {
	panic(unsup{fmt.Sprintf(f, a...)})
}

type ObjID int

// path elements: a field / element number, or a symbolic element number
type PElem struct {
	k int
	t *Term
}

type Ptr struct {
	obj  ObjID
	path []PElem
	// function pointers etc. never use Ptr
}

func (p Ptr) isNil() bool { return p.obj == 0 }

type SliceV struct {
	obj  ObjID
	path []PElem
	off  int
	len  int
	cap  int
	rope *Str // immutable opaque contents (length possibly symbolic)
}

func (s SliceV) isNil() bool { return s.obj == 0 && s.rope == nil }

type StructV []Value
type ArrayV []Value
type TupleV []Value

type IfaceV struct {
	typ types.Type
	val Value
}

type FuncV struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  string // native model bound as a function value
}

func (f FuncV) isNil() bool { return f.fn == nil && f.bi == nil && f.nat == "" }

type MapV struct{ obj ObjID }

type MapEntry struct{ k, v Value }
type MapC struct{ ents []MapEntry }

type BigV struct {
	neg *Term
	mag *Term
}

type BuilderV struct{ s Str }

type HashV struct {
	kind string
	data Str
}

type FloatV float64

// IterV: range iterators
type IterV struct {
	str  *Str
	keys []MapEntry
	pos  int
	isM  bool
}

// Opaque: a value that may be moved around but not inspected
type Opaque struct{ why string }

// ---- strings

type WordTab struct {
	id    int
	words []string
	index map[string][]int
	lens  []*big.Int
	uniq  bool
}

var wordTabs = map[string]*WordTab{}

func mkWordTab(ws []string) *WordTab {
	k := strings.Join(ws, "\x00")
	if t := wordTabs[k]; t != nil {
		return t
	}
	t := &WordTab{id: len(wordTabs) + 1, words: ws, index: map[string][]int{}}
	for i, w := range ws {
		t.index[w] = append(t.index[w], i)
		t.lens = append(t.lens, big.NewInt(int64(len(w))))
	}
	t.uniq = len(t.index) == len(ws)
	wordTabs[k] = t
	return t
}

type Atom struct {
	kind string // "word", "b58", "num"
	tab  *WordTab
	idx  *Term   // word; num: the number, at least two digits long at most
	base int     // num: 2, 4, 8, 16
	up   bool    // num: upper case
	data []*Term // b58: the encoded bytes
}

type Seg struct {
	lit  string
	b    []*Term
	atom *Atom
}

type Str struct{ segs []Seg }

func constStr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]Seg{{lit: s}}}
}

func bytesStr(b []*Term) Str {
	var out Str
	i := 0
	for i < len(b) {
		j := i
		if b[i].isConst() {
			var sb strings.Builder
			for j < len(b) && b[j].isConst() {
				sb.WriteByte(byte(b[j].val.Uint64()))
				j++
			}
			out.segs = append(out.segs, Seg{lit: sb.String()})
		} else {
			for j < len(b) && !b[j].isConst() {
				j++
			}
			out.segs = append(out.segs, Seg{b: b[i:j:j]})
		}
		i = j
	}
	return out
}

func (s Str) concat(o Str) Str {
	if len(s.segs) == 0 {
		return o
	}
	if len(o.segs) == 0 {
		return s
	}
	r := make([]Seg, 0, len(s.segs)+len(o.segs))
	r = append(r, s.segs...)
	for _, g := range o.segs {
		l := &r[len(r)-1]
		if l.atom == nil && g.atom == nil {
			if l.lit != "" && g.lit != "" {
				r[len(r)-1] = Seg{lit: l.lit + g.lit}
				continue
			}
			if l.b != nil && g.b != nil {
				nb := make([]*Term, 0, len(l.b)+len(g.b))
				nb = append(append(nb, l.b...), g.b...)
				r[len(r)-1] = Seg{b: nb}
				continue
			}
		}
		r = append(r, g)
	}
	return Str{r}
}

func (s Str) isConst() (string, bool) {
	switch len(s.segs) {
	case 0:
		return "", true
	case 1:
		if s.segs[0].atom == nil && s.segs[0].b == nil {
			return s.segs[0].lit, true
		}
	}
	return "", false
}

// clen: concrete length, or -1
func (s Str) clen() int {
	n := 0
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			return -1
		case g.b != nil:
			n += len(g.b)
		default:
			n += len(g.lit)
		}
	}
	return n
}

func (s Str) hasAtom() bool {
	for _, g := range s.segs {
		if g.atom != nil {
			return true
		}
	}
	return false
}

// bytes of a string without atoms
func (s Str) bytes() []*Term {
	n := s.clen()
	if n < 0 {
		unsupported("bytes of an opaque string")
	}
	r := make([]*Term, 0, n)
	for _, g := range s.segs {
		if g.b != nil {
			r = append(r, g.b...)
		} else {
			for i := 0; i < len(g.lit); i++ {
				r = append(r, ConstU(uint64(g.lit[i]), 8))
			}
		}
	}
	return r
}

func (s Str) slice(lo, hi int) Str {
	var out Str
	p := 0
	for _, g := range s.segs {
		if p >= hi {
			break
		}
		if g.atom != nil {
			if p < lo {
				unsupported("slice of an opaque string")
			}
			unsupported("slice across an opaque string")
		}
		n := len(g.lit)
		if g.b != nil {
			n = len(g.b)
		}
		a, b := max(lo-p, 0), min(hi-p, n)
		if a < b {
			if g.b != nil {
				out.segs = append(out.segs, Seg{b: g.b[a:b:b]})
			} else {
				out.segs = append(out.segs, Seg{lit: g.lit[a:b]})
			}
		}
		p += n
	}
	return out
}

func (s Str) String() string {
	var sb strings.Builder
	for _, g := range s.segs {
		switch {
		case g.atom != nil && g.atom.kind == "word":
			fmt.Fprintf(&sb, "<word%d[%s]>", g.atom.tab.id, g.atom.idx)
		case g.atom != nil:
			fmt.Fprintf(&sb, "<%s:%d>", g.atom.kind, len(g.atom.data))
		case g.b != nil:
			fmt.Fprintf(&sb, "<%d sym>", len(g.b))
		default:
			fmt.Fprintf(&sb, "%q", g.lit)
		}
	}
	return sb.String()
}

func allConst(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		r[i] = byte(t.val.Uint64())
	}
	return r, true
}

func bytesTerm(b []*Term) *Term { return Concat(b...) }

func termBytes(t *Term) []*Term {
	n := t.w / 8
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		hi := t.w - 1 - 8*i
		r[i] = Extract(hi, hi-7, t)
	}
	return r
}

func constBytes(s []byte) []*Term {
	r := make([]*Term, len(s))
	for i, c := range s {
		r[i] = ConstU(uint64(c), 8)
	}
	return r
}

// ---- heap

type Obj struct {
	typ   types.Type
	val   Value
	owner *int
	name  string
}

type Heap struct {
	delta map[ObjID]*Obj
}

var baseHeap = map[ObjID]*Obj{} // objects made by package initialisers: never changed by a state
var nextObj ObjID = 1

func newObjID() ObjID { nextObj++; return nextObj }

// ---- types

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func widthOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && widthOf(s.Elem()) == 8
}

func isBuilderType(t types.Type) bool {
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer")
}

func zero(t types.Type) Value {
	if isNamed(t, "math/big", "Int") {
		return BigV{TFalse, ConstU(0, 8)}
	}
	if isBuilderType(t) {
		return BuilderV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return FloatV(0)
		}
		w := widthOf(t)
		if w == 0 {
			return TFalse
		}
		if w > 0 {
			return ConstU(0, w)
		}
		return Opaque{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Struct:
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			return Opaque{"huge array"}
		}
		r := make(ArrayV, n)
		z := zero(u.Elem())
		for i := range r {
			r[i] = z
		}
		return r
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	return Opaque{"zero of " + t.String()}
}

func copyElems(v Value) Value {
	switch x := v.(type) {
	case StructV:
		return append(StructV(nil), x...)
	case ArrayV:
		return append(ArrayV(nil), x...)
	}
	return v
}
