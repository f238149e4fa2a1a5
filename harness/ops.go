package main

import (
	"crypto/rand"
	"crypto/sha512"
	"math/big"

	"github.com/aureleoules/btc"
	"golang.org/x/crypto/pbkdf2"
)

var vfArgs []interface{}

func arg(x interface{}) { vfArgs = append(vfArgs, x) }

func spoilInt(x *big.Int) { x.Add(x, big.NewInt(1)) }

// op prepares call number i of the API on arbitrary valid inputs. The
// returned function makes the call; its results check the outcome against the
// property's oracle, and spoil the returned numbers.
func op(i int, nm string, words btc.Wordlist) func() (check func(), spoil func()) {
	net, ver, pub := btc.MainNetwork, byte(0x80), byte(0)
	if vfParam("net") == 1 {
		net, ver, pub = btc.TestNetwork, 0xEF, 0x6F
	}
	arg(net)
	nothing := func() {}
	priv := func(p *btc.PrivateKey, err error, k *big.Int, wif string) (func(), func()) {
		if err != nil || p == nil {
			return func() { req(false, "accepted") }, nothing
		}
		return func() { checkKey(p, k, ver, net, wif) }, func() { spoilInt(p.Key) }
	}
	public := func(p *btc.PublicKey, bad bool, x, y *big.Int) (func(), func()) {
		if bad || p == nil {
			return func() { req(false, "accepted") }, nothing
		}
		return func() {
			req(p.X.Cmp(x) == 0, "X of the point")
			req(p.Y.Cmp(y) == 0, "Y of the point")
			req(sameNet(p.Network, net), "same network")
		}, func() { spoilInt(p.X); spoilInt(p.Y) }
	}
	switch i {
	case 0:
		k := vfScalar(nm)
		return func() (func(), func()) {
			p, err := btc.PrivateFromHex(vfHex(be32(k), nil), net)
			return priv(p, err, k, wifOf(ver, k, false))
		}
	case 1:
		k := vfScalar(nm)
		w := wifOf(ver, k, true)
		return func() (func(), func()) {
			p, err := btc.PrivateFromWIF(w, net)
			return priv(p, err, k, w)
		}
	case 2:
		k := vfScalar(nm)
		w := wifOf(ver, k, false)
		return func() (func(), func()) {
			ok := btc.CheckWIF(w)
			return func() { req(ok, "a valid WIF") }, nothing
		}
	case 3, 4:
		a, b := vfScalar(nm+".a"), vfScalar(nm+".b")
		s := new(big.Int).Add(a, b)
		if i == 4 {
			s.Mul(a, b)
		}
		s = modN(s)
		vfAssume(vfAnd(a.Cmp(b) != 0, s.Sign() != 0))
		p1, p2 := keyVia(3, a, net, ver, ""), keyVia(3, b, net, ver, "")
		arg(p1)
		arg(p2)
		return func() (func(), func()) {
			var p *btc.PrivateKey
			var err error
			if i == 3 {
				p, err = btc.AddPrivateKeys(p1, p2)
			} else {
				p, err = btc.MultiplyPrivateKeys(p1, p2)
			}
			return priv(p, err, s, wifOf(ver, s, false))
		}
	case 5:
		k := vfScalar(nm)
		x, y := vfBase(k)
		p := keyVia(3, k, net, ver, "")
		arg(p)
		return func() (func(), func()) {
			q, ok := p.GetPublicKey()
			return public(q, !ok, x, y)
		}
	case 6:
		x, y := vfBase(vfScalar(nm))
		s := vfHex(sec1(x, y, vfParam("comp") == 1), nil)
		return func() (func(), func()) {
			q, err := btc.PublicFromHex(s, net)
			return public(q, err != nil, x, y)
		}
	case 7:
		x, y := vfBase(vfScalar(nm))
		p := &btc.PublicKey{X: x, Y: y, Network: net}
		arg(p)
		comp := vfParam("comp") == 1
		return func() (func(), func()) {
			f := p.Format(comp)
			a, err := p.Address(comp)
			return func() {
				req(vfHexIs(f, sec1(x, y, comp)), "the SEC1 digits")
				req(err == nil, "no error")
				req(a == addrOf(x, y, comp, pub), "the address")
			}, nothing
		}
	case 8:
		a, b := vfScalar(nm+".a"), vfScalar(nm+".b")
		s := modN(new(big.Int).Add(a, b))
		vfAssume(s.Sign() != 0)
		x, y := vfBase(s)
		p1, p2 := pubOf(a, net), pubOf(b, net)
		arg(p1)
		arg(p2)
		return func() (func(), func()) {
			q, err := btc.AddPublicKeys(p1, p2, vfParam("comp") == 1)
			return public(q, err != nil, x, y)
		}
	case 9:
		list := words
		arg(list)
		pass := string(vfBytes(nm+".pass", 2))
		phrase := phraseOf(list, valid39(12))
		want := pbkdf2.Key([]byte(phrase), []byte("mnemonic"+pass), 2048, 64, sha512.New)
		return func() (func(), func()) {
			s, err := btc.NewSeedFromMnemonic(phrase, pass, list)
			return func() { req(err == nil && bytesEq(s, want), "the BIP39 seed") }, func() {
				if len(s) > 0 {
					s[0]++
				}
			}
		}
	}
	list := words
	if i == 11 { // calls that are refused
		arg(list)
		hex64 := vfHex(be32(new(big.Int).Add(ecN, vfBig(nm+".over", 8))), nil)
		k := vfScalar(nm)
		wif := wifOf(ver^1, k, false)
		bad := check58(cat([]byte{ver}, be32(k), vfBytes(nm+".tail", 1), []byte{0}))
		same := keyVia(3, k, net, ver, "")
		zero := &btc.PrivateKey{Key: new(big.Int), Network: net}
		x, y := vfBase(k)
		on := &btc.PublicKey{X: x, Y: y, Network: net}
		opp := &btc.PublicKey{X: new(big.Int).Set(x), Y: new(big.Int).Sub(ecP, y), Network: net}
		off := &btc.PublicKey{X: x, Y: new(big.Int).Add(y, big.NewInt(1)), Network: net}
		vfAssume(off.Y.Cmp(ecP) < 0 && !vfOnCurve(off.X, off.Y))
		enc := vfHex(sec1(off.X, off.Y, false), nil)
		phrase := phraseOf(list, anyIdx(2))
		arg(same)
		arg(zero)
		arg(on)
		arg(opp)
		arg(off)
		return func() (func(), func()) {
			var errs []error
			_, e := btc.PrivateFromHex(hex64, net)
			errs = append(errs, e)
			_, e = btc.PrivateFromHex(hex64[1:], net)
			errs = append(errs, e)
			_, e = btc.PrivateFromWIF(wif, net)
			errs = append(errs, e)
			_, e = btc.PrivateFromWIF(bad, net)
			errs = append(errs, e)
			_, e = btc.AddPrivateKeys(same, same)
			errs = append(errs, e)
			_, e = btc.MultiplyPrivateKeys(same, same)
			errs = append(errs, e)
			_, e = btc.AddPublicKeys(on, opp, true)
			errs = append(errs, e)
			_, e = btc.AddPublicKeys(off, on, true)
			errs = append(errs, e)
			_, e = btc.PublicFromHex(enc, net)
			errs = append(errs, e)
			_, e = btc.PublicFromHex(enc[:66], net)
			errs = append(errs, e)
			_, e = btc.NewSeedFromMnemonic(phrase, "", list)
			errs = append(errs, e)
			_, e = btc.NewMnemonic(13, list)
			errs = append(errs, e)
			_, valid := zero.GetPublicKey()
			w := btc.CheckWIF(wif + "0")
			return func() {
				for _, e := range errs {
					req(e != nil, "refused")
				}
				req(!valid, "refused")
				req(!w, "not a WIF")
			}, nothing
		}
	}
	// generation: a key or a phrase from its own random source
	arg(list)
	source := func(n int) { useSource(nm+".rand", n, 0, -1, 0) }
	if vfSteady { // one source for both calls, prepared now
		b := vfBytes(nm+".rand", 64)
		vfAssume(vfAnd(b[0] >= 0x10, b[0] < 0xff)) // never rejected
		rand.Reader = steady{b}
		source = func(int) {}
	}
	return func() (func(), func()) {
		source(32)
		p := btc.GeneratePrivateKey(net)
		k := new(big.Int).Set(p.Key)
		source(16)
		ph, err := btc.NewMnemonic(12, list)
		return func() {
			checkKey(p, k, ver, net, wifOf(ver, k, false))
			req(err == nil, "a phrase is returned")
			idx, ok := indices(ph, list)
			if ok && len(idx) == 12 {
				e, s := bits39(idx)
				ok = s == sum39(e, 12)
			}
			req(ok && len(idx) == 12, "a valid phrase")
		}, func() { spoilInt(p.Key) }
	}
}

// C21: params a, b (calls), net, comp, list
func C21() {
	list := pickList(vfParam("list"))
	fa := op(vfParam("a"), "u", list)
	fb := op(vfParam("b"), "v", list)
	vfFreeze(vfArgs...)
	ca, sa := fa()
	cb, sb := fb()
	cb()
	ca()
	sa()
	sb()
	cb2, _ := fb()
	cb2()
	ca2, _ := fa()
	ca2()
	vfAssert(vfFrozenOK(), "no argument and no parameter is changed by the calls or shares numbers with their results")
}

// C21lists: two phrases of two lists that look alike, one after the other;
// params a, b (9: seed, 10: generation), list, list2 (-1: list, changed in
// place by the caller between the calls)
func C21lists() {
	list := pickList(vfParam("list"))
	if vfParam("list2") < 0 {
		list = append(btc.Wordlist{}, list...)
	}
	ca, _ := op(vfParam("a"), "u", list)()
	ca()
	if vfParam("list2") < 0 {
		list[3], list[7] = list[7], list[3]
	} else {
		list = pickList(vfParam("list2"))
	}
	cb, _ := op(vfParam("b"), "v", list)()
	cb()
}

// C23: any other harness, on networks of the caller
func C23() {
	vfCustom = true
	vfHarness[harnessName(vfParam("h"))]()
}

// vfSteady: generation reads from a source that any number of callers may use
var vfSteady bool

// steady gives the same bytes at every read
type steady struct{ b []byte }

func (s steady) Read(p []byte) (int, error) { return copy(p, s.b), nil }

// C24: two calls at the same time; params a, b, same (1: with the same
// arguments), warm (1: after a call like the first), net, comp, list
func C24() {
	vfSteady = true
	list := pickList(vfParam("list"))
	if vfParam("warm") == 1 {
		op(vfParam("a"), "w", list)()
	}
	fa := op(vfParam("a"), "u", list)
	fb := fa
	if vfParam("same") == 0 {
		fb = op(vfParam("b"), "v", list)
	}
	var ca, cb func()
	vfRace(func() { ca, _ = fa() }, func() { cb, _ = fb() })
	vfAssert(vfRaceOK(), "no call accesses what another one writes without synchronisation")
	ca()
	cb()
}

// C21any: any other harness, with the parameters and arguments compared
func C21any() { frozen(vfHarness[harnessName(vfParam("h"))]) }

// C22: any other harness, with the standard streams watched
func C22() { quiet(vfHarness[harnessName(vfParam("h"))]) }

var harnessNames = []string{"C01", "C02", "C03", "C03short", "C03bad", "C04", "C04bad", "C05", "C05num", "C06", "C07fail", "C08", "C08net", "C09", "C09net", "C10", "C10out", "C11", "C11comp", "C11unc", "C11len", "C11nonhex", "C11prefix", "C12", "C13", "C14", "C14net", "C14off", "C16", "C16bad", "C16fail", "C17", "C17word", "C17space", "C17list", "C18", "C19", "C15", "C11wrap", "C13key", "C02round", "C07"}

func harnessName(i int) string { return harnessNames[i] }

var vfHarness map[string]func()

func init() {
	vfHarness = map[string]func(){
		"C01": C01, "C02": C02, "C02round": C02round, "C03": C03, "C03short": C03short, "C03bad": C03bad, "C03wrap": C03wrap,
		"C04": C04, "C04short": C04short, "C04bad": C04bad, "C04wrap": C04wrap, "C05": C05, "C05num": C05num,
		"C06": C06, "C07": C07, "C07fail": C07fail, "C08": C08, "C08net": C08net, "C09": C09, "C09net": C09net,
		"C10": C10, "C10out": C10out, "C11": C11, "C11comp": C11comp, "C11unc": C11unc, "C11near": C11near, "C11prefix": C11prefix,
		"C11len": C11len, "C11trunc": C11trunc, "C11nonhex": C11nonhex, "C11wrap": C11wrap, "C12": C12, "C12round": C12round, "C13": C13, "C13key": C13key,
		"C14": C14, "C14net": C14net, "C14off": C14off, "C15": C15, "C16": C16, "C16inj": C16inj, "C16bad": C16bad, "C16fail": C16fail,
		"C17": C17, "C17word": C17word, "C17space": C17space, "C17free": C17free, "C17list": C17list, "C18": C18, "C19": C19, "C20": C20,
		"C21": C21, "C21lists": C21lists, "C21long": C21long, "C23": C23, "C24": C24, "C21any": C21any, "C22": C22,
	}
}
