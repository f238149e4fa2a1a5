package main

import (
	"math/big"

	"github.com/aureleoules/btc"
)

// C10: params via (3: made directly), seq
func C10() {
	net, ver, _ := pickNet("net")
	if vfParam("seq") == 1 {
		k0 := vfScalar("k0")
		q0, ok0 := keyVia(3, k0, net, ver, "k0").GetPublicKey()
		req(ok0, "valid")
		if !ok0 {
			return
		}
		x0, y0 := vfBase(k0)
		defer func() {
			req(q0.X.Cmp(x0) == 0, "first call: X of k*G")
			req(q0.Y.Cmp(y0) == 0, "first call: Y of k*G")
		}()
	}
	k := vfScalar("k")
	p := keyVia(vfParam("via"), k, net, ver, "k")
	q, ok := p.GetPublicKey()
	req(ok, "valid")
	if !ok {
		return
	}
	req(q != nil, "a key is returned")
	x, y := vfBase(k)
	req(q.X.Cmp(x) == 0, "X of k*G")
	req(q.Y.Cmp(y) == 0, "Y of k*G")
	req(sameNet(q.Network, net), "same network")
}

// C10out: numbers that are not private keys
func C10out() {
	net, _, _ := pickNet("net")
	k := vfBig("k", vfParam("bits"))
	if vfParam("neg") == 1 {
		k = new(big.Int).Neg(k)
	}
	vfAssume(!vfAnd(k.Sign() > 0, k.Cmp(ecN) < 0))
	p := &btc.PrivateKey{Key: k, Network: net}
	q, ok := p.GetPublicKey()
	req(!ok, "not valid")
	req(q == nil, "no key")
}

func wantPoint(p *btc.PublicKey, err error, x, y *big.Int, net *btc.Network) {
	req(err == nil, "a valid encoding is accepted")
	if err != nil {
		return
	}
	req(p != nil, "a key is returned")
	req(p.X.Cmp(x) == 0, "X of the point")
	req(p.Y.Cmp(y) == 0, "Y of the point")
	req(sameNet(p.Network, net), "Network is the one given")
}

func wantNone(p *btc.PublicKey, err error) {
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

// C11: params comp, seq: the encodings of every point
func C11() {
	net, _, _ := pickNet("net")
	if vfParam("seq") == 1 {
		x0, y0 := vfBase(vfScalar("k0"))
		e0 := sec1(x0, y0, vfChoice("comp0", 0, 1) == 1)
		p0, err0 := btc.PublicFromHex(vfHex(e0, nil), net)
		defer func() { wantPoint(p0, err0, x0, y0, net) }()
	}
	x, y := vfBase(vfScalar("k"))
	e := sec1(x, y, vfParam("comp") == 1)
	p, err := btc.PublicFromHex(vfHex(e, vfBytes("case", (len(e)*2+7)/8)), net)
	wantPoint(p, err, x, y, net)
}

// C11comp: every string 02/03 followed by 32 bytes
func C11comp() {
	net, _, _ := pickNet("net")
	b := vfBytes("x", 32)
	x := new(big.Int).SetBytes(b)
	vfAssume(!vfAnd(x.Cmp(ecP) < 0, vfIsX(x)))
	par := byte(2 + vfChoice("odd", 0, 1))
	e := cat([]byte{par}, b)
	p, err := btc.PublicFromHex(vfHex(e, vfBytes("case", 9)), net)
	wantNone(p, err)
}

// C11unc: every string 04 followed by 64 bytes that are not a point
func C11unc() {
	net, _, _ := pickNet("net")
	b := vfBytes("xy", 64)
	x, y := new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
	vfAssume(!vfAnd(vfAnd(x.Cmp(ecP) < 0, y.Cmp(ecP) < 0), vfOnCurve(x, y)))
	p, err := btc.PublicFromHex(vfHex(cat([]byte{4}, b), vfBytes("case", 17)), net)
	wantNone(p, err)
}

// C11near: coordinates that are congruent to a point's but not below p
func C11near() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	lim := vfPow2c(256)
	dx, dy := vfChoice("dx", 0, 1), vfChoice("dy", 0, 1)
	vfAssume(dx+dy > 0)
	if dx == 1 {
		x = new(big.Int).Add(x, ecP)
	}
	if dy == 1 {
		y = new(big.Int).Add(y, ecP)
	}
	vfAssume(vfAnd(x.Cmp(lim) < 0, y.Cmp(lim) < 0))
	p, err := btc.PublicFromHex(vfHex(cat([]byte{4}, be32(x), be32(y)), nil), net)
	wantNone(p, err)
	if dx == 1 {
		p, err = btc.PublicFromHex(vfHex(cat([]byte{byte(2 + vfChoice("odd", 0, 1))}, be32(x)), nil), net)
		wantNone(p, err)
	}
}

func vfPow2c(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// C11prefix: a point with any prefix byte that does not belong to its length
func C11prefix() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	pre := vfBytes("prefix", 1)
	var e []byte
	if vfParam("comp") == 1 {
		vfAssume(vfAnd(pre[0] != 2, pre[0] != 3))
		e = cat(pre, be32(x))
	} else {
		vfAssume(pre[0] != 4)
		e = cat(pre, be32(x), be32(y))
	}
	p, err := btc.PublicFromHex(vfHex(e, vfBytes("case", (len(e)*2+7)/8)), net)
	wantNone(p, err)
}

// C11len: every string of n bytes, n not 66 or 130
func C11len() {
	net, _, _ := pickNet("net")
	p, err := btc.PublicFromHex(string(vfBytes("str", vfParam("n"))), net)
	wantNone(p, err)
}

// C11trunc: a point's encoding cut short or with more digits
func C11trunc() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	s := vfHex(sec1(x, y, vfParam("comp") == 1), nil)
	if d := vfParam("d"); d < 0 {
		s = s[:len(s)+d]
	} else {
		s += vfHex(vfBytes("more", d/2), nil)
		if d%2 == 1 {
			s += "0"
		}
	}
	vfAssume(len(s) != 66 && len(s) != 130)
	p, err := btc.PublicFromHex(s, net)
	wantNone(p, err)
}

// C11wrap: a point's encoding with any n bytes more, in front (at 0), behind
// the prefix (1), or at the end (2)
func C11wrap() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	s := vfHex(sec1(x, y, vfParam("comp") == 1), nil)
	more := string(vfBytes("more", vfParam("n")))
	switch vfParam("at") {
	case 0:
		s = more + s
	case 1:
		s = s[:2] + more + s[2:]
	default:
		s += more
	}
	p, err := btc.PublicFromHex(s, net)
	wantNone(p, err)
}

// C11nonhex: a point's encoding with one character replaced by any other byte
// that is not a hexadecimal digit
func C11nonhex() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	s := vfHex(sec1(x, y, vfParam("comp") == 1), nil)
	c := vfBytes("bad", 1)
	vfAssume(!vfIsHex(string(c)))
	at := vfParam("at")
	s = s[:at] + string(c) + s[at+1:]
	p, err := btc.PublicFromHex(s, net)
	wantNone(p, err)
}

// C12: every pair of coordinates below p
func C12() {
	x, y := vfBig("x", 256), vfBig("y", 256)
	vfAssume(vfAnd(x.Cmp(ecP) < 0, y.Cmp(ecP) < 0))
	net, _, _ := pickNet("net")
	comp := vfParam("comp") == 1
	p := &btc.PublicKey{X: x, Y: y, Network: net}
	if vfParam("seq") == 1 {
		x0, y0 := vfBig("x0", 256), vfBig("y0", 256)
		vfAssume(vfAnd(x0.Cmp(ecP) < 0, y0.Cmp(ecP) < 0))
		q := &btc.PublicKey{X: x0, Y: y0, Network: net}
		req(vfHexIs(q.Format(true), sec1(x0, y0, true)), "first call: the compressed SEC1 digits")
		req(vfHexIs(q.Format(false), sec1(x0, y0, false)), "first call: the uncompressed SEC1 digits")
	}
	req(vfHexIs(p.Format(comp), sec1(x, y, comp)), "the SEC1 digits")
}

// C12round: importing the format of a point gives the point
func C12round() {
	net, _, _ := pickNet("net")
	x, y := vfBase(vfScalar("k"))
	p := &btc.PublicKey{X: x, Y: y, Network: net}
	q, err := btc.PublicFromHex(p.Format(vfParam("comp") == 1), net)
	wantPoint(q, err, x, y, net)
}

// C13: params comp, seq
func C13() {
	net, _, ver := pickNet("net")
	x, y := vfBig("x", 256), vfBig("y", 256)
	vfAssume(vfAnd(x.Cmp(ecP) < 0, y.Cmp(ecP) < 0))
	comp := vfParam("comp") == 1
	if vfParam("seq") == 1 {
		net0, _, ver0 := pickNet("net0")
		x0, y0 := vfBig("x0", 256), vfBig("y0", 256)
		vfAssume(vfAnd(x0.Cmp(ecP) < 0, y0.Cmp(ecP) < 0))
		q := &btc.PublicKey{X: x0, Y: y0, Network: net0}
		c0 := vfChoice("comp0", 0, 1) == 1
		s, err := q.Address(c0)
		req(err == nil, "first call: no error")
		req(s == addrOf(x0, y0, c0, ver0), "first call: the P2PKH address")
	}
	p := &btc.PublicKey{X: x, Y: y, Network: net}
	s, err := p.Address(comp)
	req(err == nil, "no error")
	req(s == addrOf(x, y, comp, ver), "the P2PKH address")
}

// C13key: the same for the public keys of private keys
func C13key() {
	net, priv, ver := pickNet("net")
	k := vfScalar("k")
	p, ok := keyVia(3, k, net, priv, "k").GetPublicKey()
	vfAssume(ok)
	x, y := vfBase(k)
	comp := vfParam("comp") == 1
	s, err := p.Address(comp)
	req(err == nil, "no error")
	req(s == addrOf(x, y, comp, ver), "the P2PKH address")
}

// C14: params rel (0: any, 1: equal, 2: opposite), seq
func C14() {
	net, _, _ := pickNet("net")
	a, b := vfScalar("a"), vfScalar("b")
	switch vfParam("rel") {
	case 1:
		b = new(big.Int).Set(a)
	case 2:
		b = new(big.Int).Sub(ecN, a)
	}
	comp := vfBool("comp")
	if vfParam("seq") == 1 {
		c, d := vfScalar("c"), vfScalar("d")
		r0, err0 := btc.AddPublicKeys(pubOf(c, net), pubOf(d, net), comp)
		defer func() {
			if m := modN(new(big.Int).Add(c, d)); m.Sign() != 0 {
				x, y := vfBase(m)
				wantPoint(r0, err0, x, y, net)
			}
		}()
	}
	p, q := pubOf(a, net), pubOf(b, net)
	if vfParam("copy") == 1 {
		n2 := *net
		q.Network = &n2
	}
	r, err := btc.AddPublicKeys(p, q, comp)
	m := modN(new(big.Int).Add(a, b))
	if m.Sign() == 0 {
		req(err != nil, "opposite points: error")
		req(r == nil, "opposite points: no key")
		return
	}
	x, y := vfBase(m)
	wantPoint(r, err, x, y, net)
}

func C14net() {
	n1, ver, pub := pickNet("net")
	n2 := otherNet(n1, ver, pub)
	a, b := vfScalar("a"), vfScalar("b")
	if vfParam("rel") == 1 {
		b = new(big.Int).Set(a)
	}
	r, err := btc.AddPublicKeys(pubOf(a, n1), pubOf(b, n2), vfBool("comp"))
	wantNone(r, err)
}

// C14off: an operand that is not on the curve; params which (0 first, 1
// second, 2 both), rel (1: the same x as the other operand, 2: the same y)
func C14off() {
	net, _, _ := pickNet("net")
	x, y := vfBig("x", 256), vfBig("y", 256)
	gx, gy := vfBase(vfScalar("a"))
	switch vfParam("rel") {
	case 1:
		x = new(big.Int).Set(gx)
	case 2:
		y = new(big.Int).Set(gy)
	}
	vfAssume(vfAnd(vfAnd(x.Cmp(ecP) < 0, y.Cmp(ecP) < 0), !vfOnCurve(x, y)))
	off := &btc.PublicKey{X: x, Y: y, Network: net}
	on := &btc.PublicKey{X: gx, Y: gy, Network: net}
	var r *btc.PublicKey
	var err error
	switch vfParam("which") {
	case 0:
		r, err = btc.AddPublicKeys(off, on, vfBool("comp"))
	case 1:
		r, err = btc.AddPublicKeys(on, off, vfBool("comp"))
	default:
		r, err = btc.AddPublicKeys(off, off, vfBool("comp"))
	}
	wantNone(r, err)
}

// C15: params via1, via2
func C15() {
	net, ver, pub := pickNet("net")
	a, b := vfScalar("a"), vfScalar("b")
	s := modN(new(big.Int).Add(a, b))
	vfAssume(vfAnd(a.Cmp(b) != 0, s.Sign() != 0))
	p1 := keyVia(vfParam("via1"), a, net, ver, "a")
	p2 := keyVia(vfParam("via2"), b, net, ver, "b")
	c := vfBool("comp")
	sum, err := btc.AddPrivateKeys(p1, p2)
	if vfParam("swap") == 1 {
		sum, err = btc.AddPrivateKeys(p2, p1)
	}
	req(err == nil, "the private keys are added")
	if err != nil {
		return
	}
	q1, ok1 := p1.GetPublicKey()
	q2, ok2 := p2.GetPublicKey()
	q, ok := sum.GetPublicKey()
	req(ok1 && ok2 && ok, "the public keys exist")
	if !(ok1 && ok2 && ok) {
		return
	}
	r, err := btc.AddPublicKeys(q1, q2, c)
	req(err == nil, "the public keys are added")
	r2, err2 := btc.AddPublicKeys(q2, q1, c)
	req(err2 == nil, "the public keys are added in the other order")
	if err != nil || err2 != nil {
		return
	}
	req(r.X.Cmp(q.X) == 0 && r.Y.Cmp(q.Y) == 0, "public key of the sum = sum of the public keys")
	req(r2.X.Cmp(q.X) == 0 && r2.Y.Cmp(q.Y) == 0, "in the other order too")
	req(sameNet(r.Network, q.Network), "same network")
	comp := vfParam("comp") == 1
	ad, e1 := r.Address(comp)
	ad2, e2 := q.Address(comp)
	req(e1 == nil && e2 == nil, "addresses without error")
	req(ad == ad2, "same address")
	x, y := vfBase(s)
	req(ad == addrOf(x, y, comp, pub), "the address of the sum")
}
