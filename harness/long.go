package main

import (
	"crypto/rand"
	"math/big"

	"github.com/aureleoules/btc"
)

// seen is call number i of the API with the arguments that j determines; the
// result says whether the outcome (still) is right.
func seen(i, j int, list btc.Wordlist) func() bool {
	net, ver, pub := btc.MainNetwork, byte(0x80), byte(0)
	if vfParam("net") == 1 {
		net, ver, pub = btc.TestNetwork, 0xEF, 0x6F
	}
	comp := vfParam("comp") == 1
	k := big.NewInt(int64(1000 + 7*j))
	l := big.NewInt(int64(2000 + 7*j))
	priv := func(p *btc.PrivateKey, err error, k *big.Int, w string) func() bool {
		return func() bool {
			return err == nil && p != nil && p.Key.Cmp(k) == 0 && vfHexIs(p.Hex, be32(k)) && p.WIF == w && sameNet(p.Network, net)
		}
	}
	public := func(p *btc.PublicKey, ok bool, k *big.Int) func() bool {
		x, y := vfBase(k)
		return func() bool {
			return ok && p != nil && p.X.Cmp(x) == 0 && p.Y.Cmp(y) == 0 && sameNet(p.Network, net)
		}
	}
	switch i {
	case 0:
		p, err := btc.PrivateFromHex(vfHex(be32(k), nil), net)
		return priv(p, err, k, wifOf(ver, k, false))
	case 1:
		w := wifOf(ver, k, true)
		p, err := btc.PrivateFromWIF(w, net)
		return priv(p, err, k, w)
	case 2:
		ok := btc.CheckWIF(wifOf(ver, k, comp))
		return func() bool { return ok }
	case 3, 4:
		p1, p2 := keyVia(3, k, net, ver, ""), keyVia(3, l, net, ver, "")
		s := new(big.Int).Add(k, l)
		f := btc.AddPrivateKeys
		if i == 4 {
			s = new(big.Int).Mul(k, l)
			f = btc.MultiplyPrivateKeys
		}
		p, err := f(p1, p2)
		return priv(p, err, s, wifOf(ver, s, false))
	case 5:
		p, ok := keyVia(3, k, net, ver, "").GetPublicKey()
		return public(p, ok, k)
	case 6:
		x, y := vfBase(k)
		p, err := btc.PublicFromHex(vfHex(sec1(x, y, comp), nil), net)
		return public(p, err == nil, k)
	case 7:
		p := pubOf(k, net)
		f := p.Format(comp)
		a, err := p.Address(comp)
		return func() bool {
			return vfHexIs(f, sec1(p.X, p.Y, comp)) && err == nil && a == addrOf(p.X, p.Y, comp, pub)
		}
	case 8:
		p, err := btc.AddPublicKeys(pubOf(k, net), pubOf(l, net), comp)
		return public(p, err == nil, new(big.Int).Add(k, l))
	case 9:
		phrase := phraseOf(list, words39(be32(k)[16:], 12))
		s, err := btc.NewSeedFromMnemonic(phrase, "", list)
		return func() bool { return err == nil && len(s) == 64 }
	}
	if i == 11 { // refused
		_, e1 := btc.PrivateFromHex(vfHex(be32(new(big.Int).Add(ecN, k)), nil), net)
		_, e2 := btc.PrivateFromWIF(wifOf(ver^1, k, comp), net)
		ok := btc.CheckWIF(wifOf(ver, k, comp) + "1")
		p := pubOf(k, net)
		q := &btc.PublicKey{X: p.X, Y: new(big.Int).Add(p.Y, big.NewInt(1)), Network: net}
		_, e3 := btc.AddPublicKeys(p, q, comp)
		_, e4 := btc.PublicFromHex(vfHex(sec1(q.X, q.Y, false), nil), net)
		_, e5 := btc.NewSeedFromMnemonic(phraseOf(list, []int{j % 2048, 5}), "", list)
		_, e6 := btc.NewMnemonic(11, list)
		return func() bool {
			return e1 != nil && e2 != nil && !ok && e3 != nil && e4 != nil && e5 != nil && e6 != nil
		}
	}
	b := be32(k)
	b[0] = 0x10
	rand.Reader = steady{cat(b, b)}
	p := btc.GeneratePrivateKey(net)
	g := new(big.Int).Set(p.Key)
	ph, err := btc.NewMnemonic(12, list)
	return func() bool {
		return err == nil && p.Key.Cmp(g) == 0 && vfHexIs(p.Hex, be32(g)) && ph != ""
	}
}

// C21long: an arbitrary call after a long history; params a (calls of the
// history), b, calls (how many, all different), again (1: one of them is also
// repeated up to 3000 times), net, comp, list
func C21long() {
	vfSteady = true
	list := pickList(vfParam("list"))
	var checks []func() bool
	for j := 0; j < vfParam("calls"); j++ {
		checks = append(checks, seen(vfParam("a"), j, list))
	}
	if vfParam("again") == 1 {
		vfRepeat("times", 3000, func() { checks = append(checks[:1], seen(vfParam("a"), 0, list)) })
	}
	c, _ := op(vfParam("b"), "u", list)()
	c()
	for j := range checks {
		req(checks[j](), "an earlier result")
	}
	if vfParam("calls") > 0 {
		req(seen(vfParam("a"), 0, list)(), "an earlier call again")
	}
}
