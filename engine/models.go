package main

// Models of library functions: hashing, text, formatting, I/O.

import (
	"crypto/md5"
	"crypto/pbkdf2"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"hash"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/tools/go/ssa"
)

func fall(w *World) []Outcome { return ret1(w, fallThrough{}) }

func (ex *Exec) ptrTo(pkg, name string) types.Type {
	p := ex.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	return types.NewPointer(p.Type(name).Type())
}

// errVal is a non-nil error with the given message
func (ex *Exec) errVal(w *World, msg Str) IfaceV {
	t := ex.ptrTo("errors", "errorString")
	id := w.alloc(t.(*types.Pointer).Elem(), StructV{msg})
	return IfaceV{typ: t, val: Ptr{obj: id}}
}

func (ex *Exec) errConst(w *World, msg string) IfaceV { return ex.errVal(w, constStr(msg)) }

// ------------------------------------------------------------- hashing

func newHash(kind string) hash.Hash {
	switch kind {
	case "sha256":
		return sha256.New()
	case "sha224":
		return sha256.New224()
	case "sha512":
		return sha512.New()
	case "sha384":
		return sha512.New384()
	case "sha512_256":
		return sha512.New512_256()
	case "sha512_224":
		return sha512.New512_224()
	case "ripemd160":
		return ripemd160.New()
	case "sha1":
		return sha1.New()
	case "md5":
		return md5.New()
	}
	panic("hash " + kind)
}

// ropeArgs: the shape of a string and its symbolic contents
func ropeArgs(s Str) (string, []*Term) {
	var sh strings.Builder
	var args []*Term
	var run []*Term
	flush := func() {
		if len(run) > 0 {
			fmt.Fprintf(&sh, "b%d.", len(run))
			args = append(args, bytesTerm(run))
			run = nil
		}
	}
	for _, g := range s.segs {
		switch {
		case g.atom != nil && g.atom.kind == "word":
			flush()
			fmt.Fprintf(&sh, "w%d_%d.", g.atom.tab.id, g.atom.idx.w)
			args = append(args, g.atom.idx)
		case g.atom != nil:
			flush()
			fmt.Fprintf(&sh, "%s%d.", g.atom.kind, len(g.atom.data))
			if len(g.atom.data) > 0 {
				args = append(args, bytesTerm(g.atom.data))
			}
		case g.b != nil:
			run = append(run, g.b...)
		default:
			run = append(run, constBytes([]byte(g.lit))...)
		}
	}
	flush()
	return sh.String(), args
}

func hashApply(kind string, data Str) []*Term {
	size := newHash(kind).Size()
	if c, ok := data.isConst(); ok {
		h := newHash(kind)
		h.Write([]byte(c))
		d := h.Sum(nil)
		if len(c) > 0 {
			n := fmt.Sprintf("%s:b%d.", kind, len(c))
			declUF(n, []int{8 * len(c)}, size*8, nil, nil)
			addPoint(n, new(big.Int).SetBytes([]byte(c)), new(big.Int).SetBytes(d))
		}
		return constBytes(d)
	}
	sh, args := ropeArgs(data)
	return ufBytes(kind+":"+sh, args, size)
}

func ufBytes(name string, args []*Term, size int) []*Term {
	in := make([]int, len(args))
	for i, a := range args {
		in[i] = a.w
	}
	declUF(name, in, size*8, nil, nil)
	return termBytes(App(name, args...))
}

func hashTypeName(kind string) (string, string) {
	switch kind {
	case "sha256", "sha224":
		return "crypto/internal/fips140/sha256", "Digest"
	case "sha512", "sha384", "sha512_256", "sha512_224":
		return "crypto/internal/fips140/sha512", "Digest"
	case "ripemd160":
		return "golang.org/x/crypto/ripemd160", "digest"
	case "sha1":
		return "crypto/sha1", "digest"
	}
	return "crypto/md5", "digest"
}

func (ex *Exec) newHashVal(w *World, kind string) Value {
	pk, nm := hashTypeName(kind)
	t := ex.ptrTo(pk, nm)
	id := w.alloc(t.(*types.Pointer).Elem(), HashV{kind: kind})
	return IfaceV{typ: t, val: Ptr{obj: id}}
}

func (ex *Exec) hashMethod(w *World, p Ptr, h HashV, name string, args []Value) []Outcome {
	switch name {
	case "Write":
		s := args[0].(SliceV)
		n := ex.strLen(w, ex.sliceStr(w, s))
		if s.rope == nil {
			n = ConstU(uint64(s.len), 64)
		}
		w.setObj(p.obj, HashV{h.kind, h.data.concat(ex.sliceStr(w, s))})
		return ret1(w, TupleV{n, IfaceV{}})
	case "Sum":
		d := hashApply(h.kind, h.data)
		pre := args[0].(SliceV)
		var b []*Term
		if !pre.isNil() {
			if pre.cap >= pre.len+len(d) && pre.rope == nil {
				// appended in place
				o := w.writable(pre.obj)
				path := append([]PElem(nil), pre.path...)
				for i, x := range d {
					o.val = storePath(o.val, append(path[:len(pre.path):len(pre.path)], PElem{k: pre.off + pre.len + i}), x, true)
				}
				r := pre
				r.len += len(d)
				return ret1(w, r)
			}
			b = append(b, ex.sliceBytes(w, pre)...)
		}
		return ret1(w, ex.mkBytes(w, append(b, d...)))
	case "Reset":
		w.setObj(p.obj, HashV{kind: h.kind})
		return ret1(w, TupleV{})
	case "Size":
		return ret1(w, ConstU(uint64(newHash(h.kind).Size()), 64))
	case "BlockSize":
		return ret1(w, ConstU(uint64(newHash(h.kind).BlockSize()), 64))
	}
	return []Outcome{{w: w, kind: oUnsup, msg: "hash method " + name}}
}

func initHashes() {
	for n, k := range map[string]string{
		"crypto/sha256.New": "sha256", "crypto/sha256.New224": "sha224",
		"crypto/sha512.New": "sha512", "crypto/sha512.New384": "sha384",
		"crypto/sha512.New512_256": "sha512_256", "crypto/sha512.New512_224": "sha512_224",
		"golang.org/x/crypto/ripemd160.New": "ripemd160",
		"crypto/sha1.New":                   "sha1", "crypto/md5.New": "md5",
	} {
		k := k
		model(n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			return ret1(w, ex.newHashVal(w, k))
		})
	}
	for n, k := range map[string]string{
		"crypto/sha256.Sum256": "sha256", "crypto/sha256.Sum224": "sha224",
		"crypto/sha512.Sum512": "sha512", "crypto/sha512.Sum384": "sha384",
		"crypto/sha512.Sum512_256": "sha512_256", "crypto/sha512.Sum512_224": "sha512_224",
		"crypto/sha1.Sum": "sha1", "crypto/md5.Sum": "md5",
	} {
		k := k
		model(n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			d := hashApply(k, ex.sliceStr(w, a[0].(SliceV)))
			r := make(ArrayV, len(d))
			for i := range d {
				r[i] = d[i]
			}
			return ret1(w, r)
		})
	}
	pb := func(ex *Exec, w *World, pw, salt Str, iter, klen int64, hv Value) ([]*Term, *World) {
		o := ex.callValue(w, hv, nil)
		if len(o) != 1 || o[0].kind != oRet {
			unsupported("pbkdf2 hash constructor")
		}
		w = o[0].w
		iv, ok := o[0].ret.(IfaceV)
		if !ok {
			unsupported("pbkdf2 hash")
		}
		p, ok := iv.val.(Ptr)
		if !ok {
			unsupported("pbkdf2 hash")
		}
		h, ok := w.get(p.obj).val.(HashV)
		if !ok || len(h.data.segs) > 0 {
			unsupported("pbkdf2 hash")
		}
		if klen <= 0 || klen > 1<<16 {
			unsupported("pbkdf2 key length")
		}
		if iter < 1 {
			iter = 1
		}
		cp, ok1 := pw.isConst()
		cs, ok2 := salt.isConst()
		if ok1 && ok2 && iter <= 1<<16 {
			if k, err := pbkdf2.Key(func() hash.Hash { return newHash(h.kind) }, cp, []byte(cs), int(iter), int(klen)); err == nil {
				return constBytes(k), w
			}
		}
		s1, a1 := ropeArgs(pw)
		s2, a2 := ropeArgs(salt)
		hs := newHash(h.kind).Size()
		// blocks of the output do not depend on the key length
		nb := (int(klen) + hs - 1) / hs
		var out []*Term
		for i := 0; i < nb; i++ {
			out = append(out, ufBytes(fmt.Sprintf("pbkdf2:%s:%d:%d|%s|%s", h.kind, iter, i, s1, s2), append(append([]*Term(nil), a1...), a2...), hs)...)
		}
		return out[:klen], w
	}
	model("golang.org/x/crypto/pbkdf2.Key", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		d, w := pb(ex, w, ex.sliceStr(w, a[0].(SliceV)), ex.sliceStr(w, a[1].(SliceV)), mustInt(a[2]), mustInt(a[3]), a[4])
		return ret1(w, ex.mkBytes(w, d))
	})
	model("crypto/pbkdf2.Key", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		d, w := pb(ex, w, a[1].(Str), ex.sliceStr(w, a[2].(SliceV)), mustInt(a[3]), mustInt(a[4]), a[0])
		return ret1(w, TupleV{ex.mkBytes(w, d), IfaceV{}})
	})
}

// ------------------------------------------------------------- hex

func hexEncodeTerms(b []*Term, up bool) []*Term {
	r := make([]*Term, 0, 2*len(b))
	for _, t := range b {
		f := HexLo
		if up {
			f = HexUp
		}
		r = append(r, f(Extract(7, 4, t)), f(Extract(3, 0, t)))
	}
	return r
}

type hexDec struct {
	w   *World
	b   []*Term
	err IfaceV
}

func (ex *Exec) hexDecode(w *World, c []*Term) []hexDec {
	ok := TTrue
	oks := make([]*Term, len(c))
	for i, t := range c {
		oks[i] = HexOk(t)
		ok = And(ok, oks[i])
	}
	var out []hexDec
	good, bad := ex.split(w, ok)
	pairs := func(n int) []*Term {
		b := make([]*Term, n)
		for i := range b {
			b[i] = Concat(HexVal(c[2*i]), HexVal(c[2*i+1]))
		}
		return b
	}
	if good != nil {
		d := hexDec{w: good, b: pairs(len(c) / 2)}
		if len(c)%2 == 1 {
			d.err = ex.errConst(good, "encoding/hex: odd length hex string")
			d.err = ex.globalErr(good, "encoding/hex", "ErrLength", d.err)
		}
		out = append(out, d)
	}
	if bad != nil {
		ity := ex.prog.ImportedPackage("encoding/hex").Type("InvalidByteError").Type()
		cur := bad
		for i := 0; i < len(c) && cur != nil; i += 2 {
			var pok, ch *Term
			if i+1 < len(c) {
				pok = And(oks[i], oks[i+1])
				ch = Ite(oks[i], c[i+1], c[i])
			} else {
				pok, ch = oks[i], c[i]
			}
			t, f := ex.split(cur, Not(pok))
			if t != nil {
				out = append(out, hexDec{w: t, b: pairs(i / 2), err: IfaceV{typ: ity, val: ch}})
			}
			cur = f
		}
	}
	return out
}

// globalErr: the value of a package's error variable
func (ex *Exec) globalErr(w *World, pkg, name string, dflt IfaceV) IfaceV {
	p := ex.prog.ImportedPackage(pkg)
	if p == nil {
		return dflt
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return dflt
	}
	if v, ok := ex.load(w, Ptr{obj: ex.global(g)}).(IfaceV); ok && v.typ != nil {
		return v
	}
	return dflt
}

func (ex *Exec) writeBytes(w *World, dst SliceV, b []*Term) {
	if len(b) == 0 {
		return
	}
	if dst.rope != nil {
		unsupported("write to an opaque slice")
	}
	if dst.len < len(b) {
		panic(goPanic{"index out of range"})
	}
	o := w.writable(dst.obj)
	for i, x := range b {
		path := append(append([]PElem(nil), dst.path...), PElem{k: dst.off + i})
		o.val = storePath(o.val, path, x, true)
	}
}

func initHex() {
	model("encoding/hex.EncodeToString", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		s := a[0].(SliceV)
		if s.rope != nil && s.rope.hasAtom() {
			unsupported("hex of an opaque string")
		}
		return ret1(w, bytesStr(hexEncodeTerms(ex.sliceBytes(w, s), false)))
	})
	model("encoding/hex.Encode", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		b := hexEncodeTerms(ex.sliceBytes(w, a[1].(SliceV)), false)
		ex.writeBytes(w, a[0].(SliceV), b)
		return ret1(w, ConstU(uint64(len(b)), 64))
	})
	model("encoding/hex.DecodeString", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		var out []Outcome
		for _, m := range ex.materialize(w, a[0].(Str)) {
			for _, d := range ex.hexDecode(m.w, m.s.bytes()) {
				out = append(out, Outcome{w: d.w, kind: oRet, ret: TupleV{ex.mkBytes(d.w, d.b), d.err}})
			}
		}
		return out
	})
	model("encoding/hex.Decode", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		var out []Outcome
		for _, d := range ex.hexDecode(w, ex.sliceBytes(w, a[1].(SliceV))) {
			ex.writeBytes(d.w, a[0].(SliceV), d.b)
			out = append(out, Outcome{w: d.w, kind: oRet, ret: TupleV{ConstU(uint64(len(d.b)), 64), d.err}})
		}
		return out
	})
}

// ------------------------------------------------------------- base58

func isB58Char(c *Term) *Term {
	vals := make([]*big.Int, 256)
	for i := range vals {
		vals[i] = bigZero
		if strings.IndexByte(b58Alpha, byte(i)) >= 0 {
			vals[i] = bigOne
		}
	}
	return Eq(Lookup(vals, 1, c), ConstU(1, 1))
}

func b58Digit(c *Term) *Term {
	vals := make([]*big.Int, 256)
	for i := range vals {
		vals[i] = bigZero
		if k := strings.IndexByte(b58Alpha, byte(i)); k >= 0 {
			vals[i] = big.NewInt(int64(k))
		}
	}
	return Lookup(vals, 6, c)
}

type b58Dec struct {
	w  *World
	b  []*Term
	ok bool
}

func (ex *Exec) b58DecodeStr(w *World, s Str) []b58Dec {
	if c, ok := s.isConst(); ok {
		d, ok := b58Decode(c)
		return []b58Dec{{w, constBytes(d), ok}}
	}
	if len(s.segs) == 1 && s.segs[0].atom != nil && s.segs[0].atom.kind == "b58" {
		d := s.segs[0].atom.data
		return []b58Dec{{w, d, len(d) > 0}}
	}
	var syms []*Term
	var atoms int
	allOK := TTrue
	for _, g := range s.segs {
		switch {
		case g.atom != nil:
			atoms++
			if g.atom.kind == "word" {
				allOK = And(allOK, boolTable(g.atom, func(w string) bool {
					for i := 0; i < len(w); i++ {
						if strings.IndexByte(b58Alpha, w[i]) < 0 {
							return false
						}
					}
					return true
				}))
			}
		case g.b != nil:
			for _, c := range g.b {
				allOK = And(allOK, isB58Char(c))
			}
			syms = append(syms, g.b...)
		default:
			for i := 0; i < len(g.lit); i++ {
				if strings.IndexByte(b58Alpha, g.lit[i]) < 0 {
					return []b58Dec{{w: w}}
				}
			}
		}
	}
	if atoms == 0 {
		if d, ok := b58Known(s.bytes()); ok {
			return []b58Dec{{w, d, true}}
		}
	}
	var out []b58Dec
	good, bad := ex.split(w, allOK)
	if bad != nil {
		out = append(out, b58Dec{w: bad})
	}
	if good == nil {
		return out
	}
	if atoms > 0 {
		unsupported("base58 decoding of text around an opaque string")
	}
	b := s.bytes()
	if len(b) > 12 {
		unsupported("base58 decoding of %d symbolic characters", len(b))
	}
	ds := make([]*Term, len(b))
	for i, c := range b {
		ds[i] = b58Digit(c)
	}
	wd := (b58Pow(len(b)).BitLen() + 8) / 8 * 8
	v := Const(bigZero, wd)
	for _, d := range ds {
		v = Add(Mul(v, ConstU(58, wd)), fit(d, wd))
	}
	// leading ones
	z := ConstU(uint64(len(b)), 8)
	for i := len(b) - 1; i >= 0; i-- {
		z = Ite(Eq(ds[i], ConstU(0, 6)), z, ConstU(uint64(i), 8))
	}
	for _, zc := range ex.concretize(good, z, 40) {
		nz := int(zc.v.Int64())
		cur := zc.w
		mx := (new(big.Int).Sub(b58Pow(len(b)-nz), bigOne).BitLen() + 7) / 8
		for n := 0; n <= mx && cur != nil; n++ {
			var t *World
			if n == mx {
				t, cur = cur, nil
			} else {
				t, cur = ex.split(cur, Ult(v, Const(pow2(8*n), wd)))
			}
			if t == nil {
				continue
			}
			bs := constBytes(make([]byte, nz))
			if n > 0 {
				bs = append(bs, termBytes(Extract(8*n-1, 0, v))...)
			}
			out = append(out, b58Dec{t, bs, true})
		}
	}
	return out
}

func initB58() {
	enc := func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		s := a[0].(SliceV)
		if s.rope != nil && s.rope.hasAtom() {
			unsupported("base58 of an opaque string")
		}
		return ret1(w, b58Str(ex.sliceBytes(w, s)))
	}
	dec := func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		var out []Outcome
		for _, d := range ex.b58DecodeStr(w, a[0].(Str)) {
			if !d.ok {
				out = append(out, Outcome{w: d.w, kind: oRet, ret: TupleV{SliceV{}, ex.errConst(d.w, "base58")}})
				continue
			}
			out = append(out, Outcome{w: d.w, kind: oRet, ret: TupleV{ex.mkBytes(d.w, append([]*Term(nil), d.b...)), IfaceV{}}})
		}
		return out
	}
	for _, p := range []string{"github.com/mr-tron/base58", "github.com/mr-tron/base58/base58"} {
		for _, n := range []string{"Encode", "FastBase58Encoding", "TrivialBase58Encoding"} {
			model(p+"."+n, enc)
		}
		for _, n := range []string{"Decode", "FastBase58Decoding"} {
			model(p+"."+n, dec)
		}
	}
}

// ------------------------------------------------------------- formatting

type fmtSpec struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	verb                            rune
}

func (ex *Exec) pad(s Str, f fmtSpec, numeric bool) Str {
	if f.wid <= 0 {
		return s
	}
	n := s.clen()
	if n < 0 {
		unsupported("padding of an opaque string")
	}
	if !numeric || f.minus || !f.zero {
		// width counts runes
		if c, ok := s.isConst(); ok {
			n = utf8.RuneCountInString(c)
		} else if !numeric {
			for _, g := range s.segs {
				for _, b := range g.b {
					if b.UB().Cmp(big.NewInt(127)) > 0 {
						unsupported("padding of symbolic text")
					}
				}
			}
		}
	}
	if n >= f.wid {
		return s
	}
	k := f.wid - n
	if f.minus {
		return s.concat(constStr(strings.Repeat(" ", k)))
	}
	if f.zero && numeric {
		// after the sign
		if len(s.segs) > 0 && s.segs[0].atom == nil && s.segs[0].b == nil && s.segs[0].lit != "" && strings.IndexByte("+- ", s.segs[0].lit[0]) >= 0 {
			sg := s.segs[0].lit[:1]
			return constStr(sg + strings.Repeat("0", k)).concat(s.slice(1, n))
		}
		return constStr(strings.Repeat("0", k)).concat(s)
	}
	if f.zero && !numeric {
		return constStr(strings.Repeat("0", k)).concat(s)
	}
	return constStr(strings.Repeat(" ", k)).concat(s)
}

func (ex *Exec) fmtNumber(w *World, b BigV, f fmtSpec, isBig bool) []strW {
	base, up, pfx := 10, false, ""
	switch f.verb {
	case 'd', 'v', 's':
	case 'x':
		base, pfx = 16, "0x"
	case 'X':
		base, up, pfx = 16, true, "0X"
	case 'b':
		base, pfx = 2, "0b"
	case 'o':
		base, pfx = 8, "0"
	case 'O':
		base = 8
	default:
		unsupported("verb %%%c on a number", f.verb)
	}
	if f.verb == 's' && !isBig {
		unsupported("verb %%s on a number")
	}
	var out []strW
	pos, neg := ex.split(w, Not(b.neg))
	one := func(w *World, sign string) {
		if w == nil {
			return
		}
		// zero padding to at least the largest length: no distinction of lengths
		if want := fixedDigits(f, sign); want > 0 && base != 10 && !b.mag.isConst() {
			unit := map[int]int{16: 4, 2: 1, 8: 3}[base]
			if want*unit >= b.mag.UB().BitLen() {
				out = append(out, strW{constStr(sign).concat(digitsOf(b.mag, base, up, want)), w})
				return
			}
		}
		for _, s := range ex.bigDigits(w, b.mag, base, up, ex.lazyNum && f.wid <= 0 && f.prec < 0) {
			t := s.s
			if f.prec >= 0 {
				if n := t.clen(); n < f.prec {
					t = constStr(strings.Repeat("0", f.prec-n)).concat(t)
				}
				f := f
				f.zero = false
				if f.sharp {
					t = constStr(pfx).concat(t)
				}
				out = append(out, strW{ex.pad(constStr(sign).concat(t), f, true), s.w})
				continue
			}
			if f.verb == 'O' {
				t = constStr("0o").concat(t)
			}
			if f.sharp {
				if f.zero && f.wid > 0 {
					unsupported("%%#0x formatting")
				}
				t = constStr(pfx).concat(t)
			}
			out = append(out, strW{ex.pad(constStr(sign).concat(t), f, true), s.w})
		}
	}
	sg := ""
	if f.plus {
		sg = "+"
	} else if f.space {
		sg = " "
	}
	one(pos, sg)
	one(neg, "-")
	return out
}

func (ex *Exec) fmtArg(w *World, v Value, f fmtSpec) []strW {
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("format operand %T", v)
	}
	if iv.typ == nil {
		if f.verb == 'v' || f.verb == 'w' {
			return []strW{{ex.pad(constStr("<nil>"), f, false), w}}
		}
		return []strW{{constStr("%!" + string(f.verb) + "(<nil>)"), w}}
	}
	if isNamed(deref(iv.typ), "math/big", "Int") {
		if p, ok := iv.val.(Ptr); ok {
			if p.isNil() {
				return []strW{{ex.pad(constStr("<nil>"), f, false), w}}
			}
			return ex.fmtNumber(w, ex.bigGet(w, p), f, true)
		}
	}
	// error / Stringer
	if f.verb == 's' || f.verb == 'v' || f.verb == 'w' || f.verb == 'q' || f.verb == 'x' || f.verb == 'X' {
		for _, m := range []string{"Error", "String"} {
			sel := ex.prog.MethodSets.MethodSet(iv.typ).Lookup(nil, m)
			if sel == nil || f.sharp {
				continue
			}
			fn := ex.prog.MethodValue(sel)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
				continue
			}
			if p, ok := iv.val.(Ptr); ok && p.isNil() {
				return []strW{{ex.pad(constStr("<nil>"), f, false), w}}
			}
			var out []strW
			for _, o := range ex.call(w, fn, []Value{iv.val}, nil) {
				if o.kind != oRet {
					unsupported("%s method: %s", m, o.msg)
				}
				out = append(out, ex.fmtString(o.w, o.ret.(Str), f)...)
			}
			return out
		}
	}
	switch u := iv.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ex.fmtString(w, iv.val.(Str), f)
		case u.Info()&types.IsBoolean != 0:
			var out []strW
			t, e := ex.split(w, iv.val.(*Term))
			if t != nil {
				out = append(out, strW{ex.pad(constStr("true"), f, false), t})
			}
			if e != nil {
				out = append(out, strW{ex.pad(constStr("false"), f, false), e})
			}
			return out
		case u.Info()&types.IsInteger != 0:
			t := iv.val.(*Term)
			if f.verb == 'c' {
				if t.isConst() {
					return []strW{{ex.pad(constStr(string(rune(t.signed().Int64()))), f, false), w}}
				}
				if t.UB().Cmp(big.NewInt(128)) < 0 {
					return []strW{{ex.pad(bytesStr([]*Term{fit(t, 8)}), f, false), w}}
				}
				unsupported("%%c of a symbolic rune")
			}
			return ex.fmtNumber(w, bigFromInt(t, isSigned(iv.typ)), f, false)
		}
	case *types.Slice:
		if widthOf(u.Elem()) == 8 {
			s := iv.val.(SliceV)
			switch f.verb {
			case 's', 'x', 'X', 'q':
				return ex.fmtString(w, ex.sliceStr(w, s), f)
			}
		}
		if f.verb == 'v' || f.verb == 'd' || f.verb == 's' || f.verb == 'x' || f.verb == 'X' || f.verb == 'b' {
			return ex.fmtList(w, ex.sliceElems(w, iv.val.(SliceV)), u.Elem(), f)
		}
	case *types.Array:
		els := iv.val.(ArrayV)
		if widthOf(u.Elem()) == 8 && (f.verb == 'x' || f.verb == 'X' || f.verb == 's') {
			b := make([]*Term, len(els))
			for i := range els {
				b[i] = els[i].(*Term)
			}
			return ex.fmtString(w, bytesStr(b), f)
		}
		return ex.fmtList(w, els, u.Elem(), f)
	}
	unsupported("formatting of %s", iv.typ)
	return nil
}

func (ex *Exec) fmtList(w *World, els []Value, et types.Type, f fmtSpec) []strW {
	if f.sharp || f.plus {
		unsupported("%%#v of a list")
	}
	out := []strW{{constStr("["), w}}
	for i, e := range els {
		var nx []strW
		for _, o := range out {
			ev := e
			if _, isI := et.Underlying().(*types.Interface); !isI {
				ev = IfaceV{typ: et, val: e}
			}
			for _, p := range ex.fmtArg(o.w, ev, f) {
				s := o.s
				if i > 0 {
					s = s.concat(constStr(" "))
				}
				nx = append(nx, strW{s.concat(p.s), p.w})
			}
		}
		out = nx
		if len(out) > 2000 {
			unsupported("formatting of a list")
		}
	}
	for i := range out {
		out[i].s = out[i].s.concat(constStr("]"))
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Exec) fmtString(w *World, s Str, f fmtSpec) []strW {
	if s.hasNum() && (f.wid > 0 || f.prec >= 0 || f.verb != 's' && f.verb != 'v') {
		vs := ex.splitNum(w, s)
		if len(vs) != 1 || vs[0].s.hasNum() {
			var out []strW
			for _, v := range vs {
				out = append(out, ex.fmtString(v.w, v.s, f)...)
			}
			return out
		}
		w, s = vs[0].w, vs[0].s
	}
	switch f.verb {
	case 's', 'v', 'w':
		if f.sharp {
			unsupported("%%#v of a string")
		}
		if f.prec >= 0 {
			if c, ok := s.isConst(); ok {
				r := []rune(c)
				if len(r) > f.prec {
					s = constStr(string(r[:f.prec]))
				}
			} else {
				for _, b := range s.bytes() {
					if b.UB().Cmp(big.NewInt(127)) > 0 {
						unsupported("truncation of symbolic text")
					}
				}
				s = s.slice(0, min(f.prec, s.clen()))
			}
		}
		return []strW{{ex.pad(s, f, false), w}}
	case 'x', 'X':
		if f.sharp || f.space {
			unsupported("%%# x of a string")
		}
		b := s.bytes()
		if f.prec >= 0 && len(b) > f.prec {
			b = b[:f.prec]
		}
		return []strW{{ex.pad(bytesStr(hexEncodeTerms(b, f.verb == 'X')), f, false), w}}
	case 'q':
		if c, ok := s.isConst(); ok {
			return []strW{{ex.pad(constStr(fmt.Sprintf("%q", c)), f, false), w}}
		}
	}
	unsupported("verb %%%c on symbolic text", f.verb)
	return nil
}

func (ex *Exec) sprintf(w *World, format string, args []Value) []strW {
	out := []strW{{Str{}, w}}
	lit := func(s string) {
		for i := range out {
			out[i].s = out[i].s.concat(constStr(s))
		}
	}
	na := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		if j > 0 {
			lit(format[i : i+j])
		}
		i += j + 1
		f := fmtSpec{prec: -1}
		for ; i < len(format); i++ {
			switch format[i] {
			case '-':
				f.minus = true
				f.zero = false
				continue
			case '+':
				f.plus = true
				continue
			case '#':
				f.sharp = true
				continue
			case ' ':
				f.space = true
				continue
			case '0':
				f.zero = !f.minus
				continue
			}
			break
		}
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if na >= len(args) {
					unsupported("bad width")
				}
				n := mustInt(args[na].(IfaceV).val)
				na++
				return int(n)
			}
			n := 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				i++
			}
			return n
		}
		f.wid = num()
		if f.wid < 0 {
			f.minus, f.wid, f.zero = true, -f.wid, false
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.prec = num()
		}
		if i < len(format) && format[i] == '[' {
			unsupported("indexed format operands")
		}
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		r, n := utf8.DecodeRuneInString(format[i:])
		i += n
		f.verb = r
		if r == '%' {
			lit("%")
			continue
		}
		if na >= len(args) {
			lit("%!" + string(r) + "(MISSING)")
			continue
		}
		v := args[na]
		na++
		if r == 'T' {
			unsupported("%%T")
		}
		var nx []strW
		for _, o := range out {
			for _, p := range ex.fmtArg(o.w, v, f) {
				nx = append(nx, strW{o.s.concat(p.s), p.w})
			}
		}
		out = nx
	}
	if na < len(args) {
		unsupported("extra format operands")
	}
	return out
}

func (ex *Exec) sprint(w *World, args []Value, ln bool) []strW {
	out := []strW{{Str{}, w}}
	prevStr := true
	for i, v := range args {
		iv := v.(IfaceV)
		isS := iv.typ != nil && isString(iv.typ)
		sp := ln && i > 0 || !ln && i > 0 && !isS && !prevStr
		prevStr = isS
		var nx []strW
		for _, o := range out {
			s := o.s
			if sp {
				s = s.concat(constStr(" "))
			}
			for _, p := range ex.fmtArg(o.w, v, fmtSpec{prec: -1, verb: 'v'}) {
				nx = append(nx, strW{s.concat(p.s), p.w})
			}
		}
		out = nx
	}
	if ln {
		for i := range out {
			out[i].s = out[i].s.concat(constStr("\n"))
		}
	}
	return out
}

func (ex *Exec) isStdFile(w *World, v Value) bool {
	iv, ok := v.(IfaceV)
	return ok && iv.typ != nil && isNamed(deref(iv.typ), "os", "File")
}

func initFmt() {
	varargs := func(ex *Exec, w *World, v Value) []Value {
		return append([]Value(nil), ex.sliceElems(w, v.(SliceV))...)
	}
	model("fmt.Sprintf", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		f, ok := a[0].(Str).isConst()
		if !ok {
			unsupported("symbolic format")
		}
		ex.lazyNum = true
		defer func() { ex.lazyNum = false }()
		return strOuts(ex.sprintf(w, f, varargs(ex, w, a[1])))
	})
	model("fmt.Sprint", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		return strOuts(ex.sprint(w, varargs(ex, w, a[0]), false))
	})
	model("fmt.Sprintln", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		return strOuts(ex.sprint(w, varargs(ex, w, a[0]), true))
	})
	model("fmt.Errorf", func(ex *Exec, w *World, fn *ssa.Function, a []Value) (out []Outcome) {
		// the text of error messages is not modelled
		return ret1(w, ex.errConst(w, "formatted error"))
	})
	fprint := func(get func(ex *Exec, w *World, a []Value) []strW) modelFn {
		return func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			if ex.isStdFile(w, a[0]) {
				w.sink++
				return ret1(w, TupleV{ConstU(0, 64), IfaceV{}})
			}
			iv := a[0].(IfaceV)
			if iv.typ == nil {
				panic(goPanic{"nil writer"})
			}
			var out []Outcome
			for _, s := range get(ex, w, a[1:]) {
				rs := s.s
				var sl SliceV
				if rs.hasAtom() {
					sl = SliceV{rope: &rs}
				} else {
					sl = ex.mkBytes(s.w, rs.bytes())
				}
				m := ex.writeMethod(iv.typ)
				out = append(out, ex.invoke(s.w, iv, m, []Value{sl})...)
			}
			return out
		}
	}
	model("fmt.Fprintf", fprint(func(ex *Exec, w *World, a []Value) []strW {
		f, ok := a[0].(Str).isConst()
		if !ok {
			unsupported("symbolic format")
		}
		return ex.sprintf(w, f, varargs(ex, w, a[1]))
	}))
	model("fmt.Fprint", fprint(func(ex *Exec, w *World, a []Value) []strW { return ex.sprint(w, varargs(ex, w, a[0]), false) }))
	model("fmt.Fprintln", fprint(func(ex *Exec, w *World, a []Value) []strW { return ex.sprint(w, varargs(ex, w, a[0]), true) }))

	sinkRet := func(ret func() Value) modelFn {
		return func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			w.sink++
			return ret1(w, ret())
		}
	}
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println"} {
		model(n, sinkRet(func() Value { return TupleV{ConstU(0, 64), IfaceV{}} }))
	}
	for _, p := range []string{"log.", "(*log.Logger)."} {
		for _, n := range []string{"Print", "Printf", "Println", "Output"} {
			n := n
			model(p+n, sinkRet(func() Value {
				if n == "Output" {
					return IfaceV{}
				}
				return TupleV{}
			}))
		}
		for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
			model(p+n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
				w.sink++
				return []Outcome{{w: w, kind: oExit, msg: "log.Fatal"}}
			})
		}
		for _, n := range []string{"Panic", "Panicf", "Panicln"} {
			model(p+n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
				w.sink++
				return []Outcome{{w: w, kind: oPanic, msg: "log.Panic", pval: IfaceV{typ: types.Typ[types.String], val: constStr("log.Panic")}}}
			})
		}
		for _, n := range []string{"SetOutput", "SetFlags", "SetPrefix"} {
			model(p+n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome { return ret1(w, TupleV{}) })
		}
	}
	for _, n := range []string{"Debug", "Info", "Warn", "Error"} {
		model("log/slog."+n, sinkRet(func() Value { return TupleV{} }))
		model("(*log/slog.Logger)."+n, sinkRet(func() Value { return TupleV{} }))
	}
	model("log.Default", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		return ret1(w, Ptr{obj: w.alloc(deref(ex.ptrTo("log", "Logger")), Opaque{"logger"})})
	})
	model("log.New", modelTable["log.Default"])
	model("os.Exit", func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
		return []Outcome{{w: w, kind: oExit, msg: "os.Exit"}}
	})
	for _, n := range []string{"crypto/rand.fatal", "runtime.Goexit", "crypto/internal/fips140.fatal"} {
		model(n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			return []Outcome{{w: w, kind: oExit, msg: "fatal"}}
		})
	}
	for _, n := range []string{"Write", "WriteString", "WriteAt"} {
		model("(*os.File)."+n, sinkRet(func() Value { return TupleV{ConstU(0, 64), IfaceV{}} }))
	}
	for _, n := range []string{"syscall.Write"} {
		model(n, sinkRet(func() Value { return TupleV{ConstU(0, 64), IfaceV{}} }))
	}
	// files made by the code are taken as a standard stream; the replay decides
	file := func(iface bool) modelFn {
		return func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			t := ex.ptrTo("os", "File")
			p := Ptr{obj: w.alloc(deref(t), Opaque{"file"})}
			if iface {
				return ret1(w, IfaceV{typ: t, val: p})
			}
			return ret1(w, p)
		}
	}
	model("log.Writer", file(true))
	model("(*log.Logger).Writer", file(true))
	model("os.NewFile", file(false))
	model("runtime/debug.PrintStack", sinkRet(func() Value { return TupleV{} }))
	for _, n := range []string{"errors.New"} {
		model(n, func(ex *Exec, w *World, fn *ssa.Function, a []Value) []Outcome {
			return ret1(w, ex.errVal(w, a[0].(Str)))
		})
	}
}

func (ex *Exec) writeMethod(t types.Type) *types.Func {
	sel := ex.prog.MethodSets.MethodSet(t).Lookup(nil, "Write")
	if sel == nil {
		unsupported("no Write method on %s", t)
	}
	return sel.Obj().(*types.Func)
}

func init() {
	initHashes()
	initHex()
	initB58()
	initFmt()
	initStrings()
	initRegexp()
	initMisc()
	initCurve()
}
