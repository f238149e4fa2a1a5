package main

import (
	"math/big"

	"github.com/aureleoules/btc"
)

// C01: params seq (1: another import happens before)
func C01() {
	net, ver, _ := pickNet("net")
	if vfParam("seq") == 1 {
		net0, ver0, _ := pickNet("net0")
		k0 := vfScalar("k0")
		p0, err := btc.PrivateFromHex(vfHex(be32(k0), nil), net0)
		req(err == nil, "a valid key is accepted")
		if err != nil {
			return
		}
		defer checkKey(p0, k0, ver0, net0, wifOf(ver0, k0, false))
	}
	k := vfScalar("k")
	p, err := btc.PrivateFromHex(vfHex(be32(k), vfBytes("case", 8)), net)
	req(err == nil, "a valid key is accepted")
	if err != nil {
		return
	}
	req(p != nil, "a key is returned")
	checkKey(p, k, ver, net, wifOf(ver, k, false))
}

// C02: params comp (1: compressed), seq
func C02() {
	net, ver, _ := pickNet("net")
	if vfParam("seq") == 1 {
		net0, ver0, _ := pickNet("net0")
		k0 := vfScalar("k0")
		w0 := wifOf(ver0, k0, vfChoice("comp0", 0, 1) == 1)
		p0, err := btc.PrivateFromWIF(w0, net0)
		req(err == nil, "a valid WIF is accepted")
		if err != nil {
			return
		}
		defer checkKey(p0, k0, ver0, net0, w0)
	}
	k := vfScalar("k")
	w := wifOf(ver, k, vfParam("comp") == 1)
	p, err := btc.PrivateFromWIF(w, net)
	req(err == nil, "a valid WIF is accepted")
	if err != nil {
		return
	}
	req(p != nil, "a key is returned")
	checkKey(p, k, ver, net, w)
}

// C02round: hex import, then WIF import of the result
func C02round() {
	net, ver, _ := pickNet("net")
	k := vfScalar("k")
	p, err := btc.PrivateFromHex(vfHex(be32(k), vfBytes("case", 8)), net)
	req(err == nil, "a valid key is accepted")
	if err != nil {
		return
	}
	q, err := btc.PrivateFromWIF(p.WIF, net)
	req(err == nil, "its WIF is accepted")
	if err != nil {
		return
	}
	checkKey(q, k, ver, net, p.WIF)
}

func xor4(a, b []byte) []byte {
	r := make([]byte, 4)
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func zero4(b []byte) bool { return b[0]|b[1]|b[2]|b[3] == 0 }

// C03: every string that decodes to n+4 bytes
func C03() {
	if vfParam("seq") == 1 {
		pl := vfBytes("payload0", vfParam("n"))
		d := vfBytes("delta0", 4)
		req(btc.CheckWIF(vfB58(cat(pl, xor4(dsha(pl)[:4], d)))) == zero4(d), "first call: accepted iff the checksum matches")
	}
	pl := vfBytes("payload", vfParam("n"))
	delta := vfBytes("delta", 4)
	s := vfB58(cat(pl, xor4(dsha(pl)[:4], delta)))
	req(btc.CheckWIF(s) == zero4(delta), "accepted iff the checksum matches")
}

// C03short: every string that decodes to fewer than 4 bytes
func C03short() {
	s := vfB58(vfBytes("raw", vfParam("n")))
	req(!btc.CheckWIF(s), "too short: refused")
}

// badString is any string of n bytes of which at least one is not a Base58 digit
func badString(n int) string {
	b := vfBytes("str", n)
	ok := true
	for _, c := range b {
		ok = vfAnd(ok, vfB58Char(c))
	}
	vfAssume(!ok)
	return string(b)
}

// embedded is a valid Base58Check string with one foreign byte put in front,
// behind, or both
func embedded(ver byte, comp bool) string {
	k := vfScalar("k")
	w := wifOf(ver, k, comp)
	b := vfBytes("bad", 1)
	vfAssume(!vfB58Char(b[0]))
	switch vfChoice("where", 0, 2) {
	case 0:
		return string(b) + w
	case 1:
		return w + string(b)
	}
	return string(b) + w + string(b)
}

func C03bad() { req(!btc.CheckWIF(badString(vfParam("n"))), "not Base58: refused") }

func C03wrap() {
	_, ver, _ := pickNet("net")
	req(!btc.CheckWIF(embedded(ver, vfParam("comp") == 1)), "not Base58: refused")
}

func inRange(b []byte) bool {
	k := new(big.Int).SetBytes(b)
	return vfAnd(k.Sign() > 0, k.Cmp(ecN) < 0)
}

// C04: every string that decodes to n+4 bytes
func C04() {
	net, ver, _ := pickNet("net")
	n := vfParam("n")
	pl := vfBytes("payload", n)
	delta := vfBytes("delta", 4)
	s := vfB58(cat(pl, xor4(dsha(pl)[:4], delta)))
	want := zero4(delta)
	if n == 33 || n == 34 {
		want = vfAnd(want, vfAnd(pl[0] == ver, inRange(pl[1:33])))
		if n == 34 {
			want = vfAnd(want, pl[33] == 1)
		}
	} else {
		want = false
	}
	p, err := btc.PrivateFromWIF(s, net)
	if want {
		return // C02
	}
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

func C04short() {
	net, _, _ := pickNet("net")
	p, err := btc.PrivateFromWIF(vfB58(vfBytes("raw", vfParam("n"))), net)
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

func C04bad() {
	net, _, _ := pickNet("net")
	p, err := btc.PrivateFromWIF(badString(vfParam("n")), net)
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

func C04wrap() {
	net, ver, _ := pickNet("net")
	p, err := btc.PrivateFromWIF(embedded(ver, vfParam("comp") == 1), net)
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

// C05: every string of n bytes
func C05() {
	net, _, _ := pickNet("net")
	n := vfParam("n")
	s := string(vfBytes("str", n))
	if n == 64 {
		k := vfHexNum(s)
		if vfAnd(vfIsHex(s), vfAnd(k.Sign() > 0, k.Cmp(ecN) < 0)) {
			vfAssume(false) // C01
		}
	}
	p, err := btc.PrivateFromHex(s, net)
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

// C05num: 64 digits that denote 0 or at least n
func C05num() {
	net, _, _ := pickNet("net")
	b := vfBytes("num", 32)
	vfAssume(!inRange(b))
	p, err := btc.PrivateFromHex(vfHex(b, vfBytes("case", 8)), net)
	req(err != nil, "refused with an error")
	req(p == nil, "no key is returned")
}

// C06: params max (bytes drawn at most), chunk
func C06() {
	net, ver, _ := pickNet("net")
	useSource("rand", vfParam("max"), vfParam("chunk"), -1, 0)
	p := btc.GeneratePrivateKey(net)
	req(p != nil, "a key is returned")
	k := new(big.Int).Set(p.Key)
	req(k.Sign() > 0, "Key is at least 1")
	req(k.Cmp(ecN) < 0, "Key is below n")
	checkKey(p, k, ver, net, wifOf(ver, k, false))
	if vfParam("imp") == 1 {
		q, err := btc.PrivateFromWIF(p.WIF, net)
		req(err == nil, "its WIF is accepted")
		if err == nil {
			req(q.Key.Cmp(k) == 0, "its WIF imports as the same key")
		}
		q, err = btc.PrivateFromHex(p.Hex, net)
		req(err == nil, "its Hex is accepted")
		if err == nil {
			req(q.Key.Cmp(k) == 0, "its Hex imports as the same key")
		}
	}
}

// C07: two generations from two random sources
func C07() {
	net, _, _ := pickNet("net")
	max, chunk := vfParam("max"), vfParam("chunk")
	s1 := useSource("rand1", max, chunk, -1, 0)
	p1 := btc.GeneratePrivateKey(net)
	d1 := s1.drawn
	s2 := useSource("rand2", max, chunk, -1, 0)
	p2 := btc.GeneratePrivateKey(net)
	d2 := s2.drawn
	req(len(d1) >= 32, "at least 256 random bits are drawn")
	req(len(d2) >= 32, "at least 256 random bits are drawn")
	if len(d1) != len(d2) || len(d1) >= 64 {
		return
	}
	vfAssume(!bytesEq(d1, d2))
	req(p1.Key.Cmp(p2.Key) != 0, "different draws give different keys")
}

// C07fail: the random source fails at some read
func C07fail() {
	net, _, _ := pickNet("net")
	s := useSource("rand", vfParam("max"), vfParam("chunk"), vfParam("fail"), vfParam("part"))
	vfMayEnd(true)
	p := btc.GeneratePrivateKey(net)
	if s.failed {
		req(p == nil, "no key is returned after a failure")
		req(false, "the call does not return after a failure")
	}
}

// C08: params via1, via2
func C08() { combine(false, true) }

// C09: params via1, via2
func C09() { combine(true, true) }

func combine(mul bool, sameNetwork bool) {
	net1, ver1, pub1 := pickNet("net")
	net2, ver2 := net1, ver1
	if !sameNetwork {
		net2 = otherNet(net1, ver1, pub1)
	}
	a, b := vfScalar("a"), vfScalar("b")
	if vfParam("eq") == 1 {
		b = new(big.Int).Set(a)
	}
	p1 := keyVia(vfParam("via1"), a, net1, ver1, "a")
	p2 := keyVia(vfParam("via2"), b, net2, ver2, "b")
	if vfParam("copy") == 1 { // equal networks that are not the same variable
		n2 := *net2
		p2.Network = &n2
	}
	var r *btc.PrivateKey
	var err error
	k := new(big.Int)
	if mul {
		r, err = btc.MultiplyPrivateKeys(p1, p2)
		k.Mul(a, b)
	} else {
		r, err = btc.AddPrivateKeys(p1, p2)
		k.Add(a, b)
	}
	k = modN(k)
	if !sameNetwork {
		req(err != nil, "different networks: refused with an error")
		req(r == nil, "different networks: no key")
		return
	}
	if a.Cmp(b) == 0 {
		req(err != nil, "equal keys: refused with an error")
		req(r == nil, "equal keys: no key")
		return
	}
	if !mul && k.Sign() == 0 {
		req(err != nil, "sum n: refused with an error")
		req(r == nil, "sum n: no key")
		return
	}
	req(err == nil, "accepted")
	if err != nil {
		return
	}
	req(r != nil, "a key is returned")
	checkKey(r, k, ver1, net1, wifOf(ver1, k, false))
}

func C08net() { combine(false, false) }
func C09net() { combine(true, false) }
