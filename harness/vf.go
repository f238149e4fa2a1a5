// The concrete side of the harness vocabulary. The encoder replaces every vf*
// function by its symbolic meaning; this file gives the same vocabulary on
// concrete values, so that an assignment found by a solver can be replayed
// against the real code. The oracles here (curve, Base58, hexadecimal) are
// written independently of the code under test and of its dependencies.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type assignment struct {
	Fn     string            `json:"fn"`
	Params map[string]int    `json:"params"`
	Vars   map[string]string `json:"vars"`
}

type outcome struct {
	Status  string            `json:"status"` // ok, assert, assume, panic
	Msg     string            `json:"msg"`
	Vars    map[string]string `json:"vars,omitempty"`
	Iters   int               `json:"iters"`
	Asserts int               `json:"asserts"`
	Fps     []string          `json:"-"`
}

type vfStop struct{ kind, msg string }

var (
	vfCur     assignment
	vfCount   map[string]int
	vfUsed    map[string]string
	vfPerturb *rand.Rand
	vfKeep    bool
	vfEndOK   bool
	vfStatus  *os.File
	vfSinkF   *os.File
	vfSink0   int64
	vfPrint   []byte
	vfN       int
)

func vfStat() {
	if vfStatus == nil {
		return
	}
	b, _ := json.Marshal(struct {
		End   bool              `json:"may_end"`
		Quiet bool              `json:"quiet"`
		Vars  map[string]string `json:"vars"`
	}{vfEndOK, vfQuietOn, vfUsed})
	vfStatus.Truncate(0)
	vfStatus.WriteAt(b, 0)
}

func vfValue(name string, lo, hi *big.Int) *big.Int {
	k := vfCount[name]
	vfCount[name] = k + 1
	id := name + "#" + strconv.Itoa(k)
	v := new(big.Int)
	s, have := vfCur.Vars[id]
	if have {
		v.SetString(s, 16)
	} else {
		v.Set(lo)
	}
	span := new(big.Int).Sub(hi, lo)
	span.Add(span, big.NewInt(1))
	if vfPerturb != nil && !vfKeep {
		switch vfPerturb.Intn(8) {
		case 0, 1, 2, 3:
		case 4, 5: // anything
			v.Rand(vfPerturb, span)
			v.Add(v, lo)
		case 6: // same length
			if n := v.BitLen(); n > 0 {
				r := new(big.Int).Rand(vfPerturb, new(big.Int).Lsh(big.NewInt(1), uint(n-1)))
				v.SetBit(r, n-1, 1)
			}
		case 7: // low bits
			n := 1 + vfPerturb.Intn(16)
			v.Xor(v, new(big.Int).Rand(vfPerturb, new(big.Int).Lsh(big.NewInt(1), uint(n))))
		}
	}
	if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
		v.Sub(v, lo)
		v.Mod(v, span)
		v.Add(v, lo)
	}
	vfUsed[id] = v.Text(16)
	return v
}

func vfPow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func vfParam(name string) int {
	v, ok := vfCur.Params[name]
	if !ok {
		panic(vfStop{"assume", "parameter " + name + " missing"})
	}
	return v
}

func vfSymbolic() bool { return false }

func vfBytes(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	v := vfValue(name, big.NewInt(0), new(big.Int).Sub(vfPow2(8*n), big.NewInt(1)))
	return v.FillBytes(make([]byte, n))
}

func vfScalar(name string) *big.Int {
	return vfValue(name, big.NewInt(1), new(big.Int).Sub(ecN, big.NewInt(1)))
}

func vfBig(name string, bits int) *big.Int {
	return vfValue(name, big.NewInt(0), new(big.Int).Sub(vfPow2(bits), big.NewInt(1)))
}

func vfBool(name string) bool {
	return vfValue(name, big.NewInt(0), big.NewInt(1)).Sign() != 0
}

func vfInt(name string, lo, hi int) int {
	return int(vfValue(name, big.NewInt(int64(lo)), big.NewInt(int64(hi))).Int64())
}

func vfChoice(name string, lo, hi int) int { return vfInt(name, lo, hi) }

func vfAssume(c bool) {
	if !c {
		panic(vfStop{"assume", ""})
	}
}

func vfAssert(c bool, msg string) {
	vfN++
	if !c {
		panic(vfStop{"assert", msg})
	}
}

// vfMayEnd: from now on, the harness allows (or not) a call to end the
// process or to panic instead of returning
func vfMayEnd(b bool) {
	vfEndOK = b
	vfStat()
}

// vfSink: a number that grows with every write to the standard streams
func vfSink() int {
	if vfSinkF == nil {
		return 0
	}
	st, err := vfSinkF.Stat()
	if err != nil {
		return 0
	}
	return int(st.Size())
}

func vfAnd(a, b bool) bool { return a && b }
func vfOr(a, b bool) bool  { return a || b }
func vfNote(string)        {}
func vfDebug(x interface{}) {
	fmt.Fprintln(os.Stderr, x)
}

// ---- secp256k1

func hexInt(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 16)
	return v
}

var (
	ecP  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	ecN  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	ecGx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	ecGy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// ecAdd adds affine points; nil is the point at infinity
func ecAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	num, den := new(big.Int), new(big.Int)
	if x1.Cmp(x2) == 0 {
		if s := new(big.Int).Add(y1, y2); s.Mod(s, ecP).Sign() == 0 {
			return nil, nil
		}
		num.Mul(x1, x1)
		num.Mul(num, big.NewInt(3))
		den.Lsh(y1, 1)
	} else {
		num.Sub(y2, y1)
		den.Sub(x2, x1)
	}
	den.Mod(den, ecP)
	den.ModInverse(den, ecP)
	l := num.Mul(num, den)
	l.Mod(l, ecP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, ecP)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, ecP)
	return x, y
}

// vfBase: the affine coordinates of k times the generator, 1 <= k < n
func vfBase(k *big.Int) (*big.Int, *big.Int) {
	var x, y *big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		x, y = ecAdd(x, y, x, y)
		if k.Bit(i) == 1 {
			x, y = ecAdd(x, y, ecGx, ecGy)
		}
	}
	if x == nil {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(x), new(big.Int).Set(y)
}

func ecRHS(x *big.Int) *big.Int {
	r := new(big.Int).Exp(x, big.NewInt(3), ecP)
	r.Add(r, big.NewInt(7))
	return r.Mod(r, ecP)
}

// vfOnCurve: y^2 = x^3 + 7 modulo p
func vfOnCurve(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	l.Mod(l, ecP)
	return l.Cmp(ecRHS(x)) == 0
}

// vfIsX: x is the abscissa of a point
func vfIsX(x *big.Int) bool {
	r := ecRHS(x)
	return r.Sign() == 0 || big.Jacobi(r, ecP) == 1
}

// ---- Base58

const b58Alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func vfB58(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	for n.Sign() > 0 {
		n.DivMod(n, big.NewInt(58), m)
		out = append(out, b58Alpha[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func vfB58Char(c byte) bool { return strings.IndexByte(b58Alpha, c) >= 0 }

// ---- hexadecimal

func nibbleOf(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// vfHex: the digits of b; digit i is in upper case when bit i of cs is set
func vfHex(b []byte, cs []byte) string {
	out := make([]byte, 2*len(b))
	for i := range out {
		n := b[i/2] >> 4
		if i%2 == 1 {
			n = b[i/2] & 15
		}
		out[i] = "0123456789abcdef"[n]
		if i/8 < len(cs) && cs[i/8]>>(uint(i)%8)&1 == 1 {
			out[i] = "0123456789ABCDEF"[n]
		}
	}
	return string(out)
}

// vfHexIs: s is the hexadecimal digits of b, in either case
func vfHexIs(s string, b []byte) bool {
	if len(s) != 2*len(b) {
		return false
	}
	for i := range b {
		if nibbleOf(s[2*i]) != int(b[i]>>4) || nibbleOf(s[2*i+1]) != int(b[i]&15) {
			return false
		}
	}
	return true
}

func vfIsHex(s string) bool {
	for i := 0; i < len(s); i++ {
		if nibbleOf(s[i]) < 0 {
			return false
		}
	}
	return true
}

func vfHexNum(s string) *big.Int {
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		v.Lsh(v, 4)
		v.Or(v, big.NewInt(int64(nibbleOf(s[i])&15)))
	}
	return v
}

// vfWordIndex: the index of a word in a list, -1 if absent
func vfWordIndex(list []string, word string) int {
	for i := range list {
		if list[i] == word {
			return i
		}
	}
	return -1
}

// ---- replay

func vfOnce() (st string, msg string) {
	vfCount = map[string]int{}
	vfUsed = map[string]string{}
	for k, v := range vfCur.Vars {
		if strings.HasPrefix(k, "env:") {
			vfUsed[k] = v
		}
	}
	vfEndOK = false
	vfStat()
	defer func() {
		vfReset()
		if r := recover(); r != nil {
			if s, ok := r.(vfStop); ok {
				st, msg = s.kind, s.msg
				return
			}
			if vfEndOK {
				st, msg = "ok", ""
				return
			}
			st, msg = "panic", fmt.Sprint(r)
			if os.Getenv("VF_TRACE") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	vfHarness[vfCur.Fn]()
	return "ok", ""
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay ASSIGNMENT RESULT [search-seconds seed]")
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &vfCur)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	// the environment is read before main, too
	if n := vfCur.Params["env"]; n > 0 && os.Getenv("VF_ENV") == "" {
		os.Setenv("VF_ENV", "1")
		for k := range vfCur.Vars {
			if strings.HasPrefix(k, "env:") {
				os.Setenv(k[4:], []string{"", "1", "true"}[n])
			}
		}
		if self, err := os.Executable(); err == nil {
			syscall.Exec(self, os.Args, os.Environ())
		}
	}
	if vfHarness[vfCur.Fn] == nil {
		fmt.Println("no harness", vfCur.Fn)
		os.Exit(9)
	}
	vfStatus, err = os.Create(os.Args[2] + ".status")
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	vfSinkF, err = os.Create(os.Args[2] + ".sink")
	if err == nil {
		vfSinkF.Close()
		vfSinkF, err = os.OpenFile(os.Args[2]+".sink", os.O_RDWR|os.O_APPEND, 0600)
	}
	if err == nil {
		if os.Getenv("VF_NOSINK") == "" {
			syscall.Dup2(int(vfSinkF.Fd()), 1)
			syscall.Dup2(int(vfSinkF.Fd()), 2)
		}
	}
	debug.SetMaxStack(64 << 20)
	var res outcome
	st, msg := vfOnce()
	res = outcome{Status: st, Msg: msg, Vars: vfUsed, Iters: 1}
	if len(os.Args) >= 5 && (st == "ok" || st == "assume") {
		secs, _ := strconv.ParseFloat(os.Args[3], 64)
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		vfPerturb = rand.New(rand.NewSource(seed))
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		n := 1
		for time.Now().Before(end) && n < 200000 {
			n++
			vfKeep = false
			st, msg := vfOnce()
			if st == "assert" || st == "panic" {
				res = outcome{Status: st, Msg: msg, Vars: vfUsed}
				break
			}
			if vfSinkF != nil && n%1000 == 0 {
				vfSinkF.Truncate(0)
			}
		}
		res.Iters = n
	}
	res.Asserts = vfN
	o, _ := json.Marshal(res)
	os.WriteFile(os.Args[2], o, 0644)
}

// vfRace runs f and g in two goroutines, g after f but not synchronised with
// it; the race detector watches
func vfRace(f, g func()) {
	done := make(chan interface{}, 2)
	var flag int32
	run := func(h func()) {
		defer func() { done <- recover() }()
		h()
	}
	go run(func() {
		defer vfRaised(&flag)
		f()
	})
	go run(func() {
		vfAwait(&flag)
		g()
	})
	a, b := <-done, <-done
	if a != nil {
		panic(a)
	}
	if b != nil {
		panic(b)
	}
}

//go:norace
func vfRaised(p *int32) { *p = 1 }

//go:norace
func vfAwait(p *int32) {
	for *p == 0 {
		time.Sleep(time.Millisecond)
	}
}

// vfRepeat makes a call up to max times
func vfRepeat(name string, max int, f func()) {
	f()
	f()
	for i := vfInt(name, 0, max); i > 0; i-- {
		f()
	}
}

func vfRaceOK() bool { return true }
