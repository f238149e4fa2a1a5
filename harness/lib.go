package main

// Helpers shared by the harnesses. Everything here is executed symbolically
// as well as concretely.

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"math/big"

	"github.com/aureleoules/btc"
)

// harness modes: what is asserted on the paths of a harness
const (
	modeProp   = 0 // the assertions of the property
	modeQuiet  = 1 // only: nothing is written to the standard streams
	modeFrozen = 2 // only: no argument, parameter or list is changed
)

var vfMode = modeProp

func req(c bool, msg string) {
	if vfMode == modeProp {
		vfAssert(c, msg)
	}
}

// quiet runs a harness with the assertion of C22
func quiet(h func()) {
	vfMode = modeQuiet
	vfMayEnd(true)
	vfQuiet(true)
	s := vfSink()
	h()
	vfAssert(vfSink() == s, "nothing is written to the standard streams")
	vfQuiet(false)
}

// frozen runs a harness with the assertion of C21 on the package's parameters
func frozen(h func()) {
	vfMode = modeFrozen
	vfMayEnd(true)
	vfFreeze()
	h()
	vfAssert(vfFrozenOK(), "no package parameter or argument is changed")
}

func vfReset() {
	vfMode = modeProp
	rand.Reader = realReader
	vfArgs = nil
	vfCustom = false
	vfSteady = false
	vfQuietOn = false
}

var realReader = rand.Reader

// pickNet: the main or the test network, with the version bytes that the
// properties require
func pickNet(name string) (n *btc.Network, priv byte, pub byte) {
	if vfCustom {
		return customNet(name)
	}
	if vfChoice(name, 0, 1) == 0 {
		return btc.MainNetwork, 0x80, 0x00
	}
	return btc.TestNetwork, 0xEF, 0x6F
}

// vfCustom: the networks of the harness are any networks of the caller
var vfCustom bool

// customNet is a network with any version bytes, written as two hexadecimal
// digits each, in either case
func customNet(name string) (*btc.Network, byte, byte) {
	v := vfBytes(name+".ver", 2)
	d := vfHex(v, vfBytes(name+".case", 1))
	return &btc.Network{PrivKeyPrefix: d[:2], PubKeyHashPrefix: d[2:]}, v[0], v[1]
}

// otherNet is a network that differs from a given one: the other predefined
// one, or one that differs in one of the version bytes only
func otherNet(n *btc.Network, priv, pub byte) *btc.Network {
	if vfCustom {
		m, priv2, pub2 := customNet("net2")
		vfAssume(vfOr(priv != priv2, pub != pub2))
		return m
	}
	o := btc.MainNetwork
	if priv == 0x80 {
		o = btc.TestNetwork
	}
	switch vfChoice("differ", 0, 2) {
	case 0:
		return o
	case 1:
		return &btc.Network{PrivKeyPrefix: n.PrivKeyPrefix, PubKeyHashPrefix: o.PubKeyHashPrefix}
	}
	return &btc.Network{PrivKeyPrefix: o.PrivKeyPrefix, PubKeyHashPrefix: n.PubKeyHashPrefix}
}

func sameNet(a, b *btc.Network) bool {
	if a == nil || b == nil {
		return false
	}
	return a.PrivKeyPrefix == b.PrivKeyPrefix && a.PubKeyHashPrefix == b.PubKeyHashPrefix
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	g := sha256.Sum256(h[:])
	return g[:]
}

// check58 is Base58Check
func check58(payload []byte) string {
	return vfB58(cat(payload, dsha(payload)[:4]))
}

func be32(k *big.Int) []byte { return k.FillBytes(make([]byte, 32)) }

func wifOf(ver byte, k *big.Int, compressed bool) string {
	p := cat([]byte{ver}, be32(k))
	if compressed {
		p = append(p, 1)
	}
	return check58(p)
}

// checkKey: p is the private key k of a network
func checkKey(p *btc.PrivateKey, k *big.Int, ver byte, net *btc.Network, wif string) {
	req(p.Key.Cmp(k) == 0, "Key is the number")
	req(vfHexIs(p.Hex, be32(k)), "Hex is the 64 digits of the number")
	req(p.WIF == wif, "WIF is the Base58Check encoding")
	req(sameNet(p.Network, net), "Network is the one given")
}

// keyVia obtains the private key k through the API
func keyVia(via int, k *big.Int, net *btc.Network, ver byte, name string) *btc.PrivateKey {
	switch via {
	case 0:
		p, err := btc.PrivateFromHex(vfHex(be32(k), vfBytes(name+".case", 8)), net)
		vfAssume(err == nil && p != nil)
		return p
	case 1, 2:
		p, err := btc.PrivateFromWIF(wifOf(ver, k, via == 2), net)
		vfAssume(err == nil && p != nil)
		return p
	}
	return &btc.PrivateKey{Key: new(big.Int).Set(k), Hex: vfHex(be32(k), nil), WIF: wifOf(ver, k, false), Network: net}
}

// pubOf is the public key of k, made directly
func pubOf(k *big.Int, net *btc.Network) *btc.PublicKey {
	x, y := vfBase(k)
	return &btc.PublicKey{X: x, Y: y, Network: net}
}

func sec1(x, y *big.Int, compressed bool) []byte {
	if !compressed {
		return cat([]byte{4}, be32(x), be32(y))
	}
	return cat([]byte{2 + byte(y.Bit(0))}, be32(x))
}

func hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	return ripemd(h[:])
}

func addrOf(x, y *big.Int, compressed bool, ver byte) string {
	return check58(cat([]byte{ver}, hash160(sec1(x, y, compressed))))
}

func modN(v *big.Int) *big.Int { return new(big.Int).Mod(v, ecN) }

// ---- the random source

var errRandom = errors.New("random source failed")

// source is an arbitrary random source: every byte is a fresh symbolic value
type source struct {
	name   string
	drawn  []byte // everything delivered
	reads  int
	max    int // bound: at most max bytes are delivered
	chunk  int // at most chunk bytes per read (0: no limit)
	fail   int // the read with this number fails (-1: none)
	part   int // bytes delivered together with the failure
	failed bool
}

func (s *source) Read(p []byte) (int, error) {
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	bad := s.fail >= 0 && s.reads >= s.fail
	if bad {
		if n > s.part {
			n = s.part
		}
		if n < len(p) { // a read that fills the buffer is not a failure for io.ReadFull
			s.failed = true
		}
	}
	s.reads++
	vfAssume(len(s.drawn)+n <= s.max && s.reads <= s.max+2)
	b := vfBytes(s.name, n)
	copy(p, b)
	s.drawn = append(s.drawn, b...)
	if bad {
		return n, errRandom
	}
	return n, nil
}

func useSource(name string, max, chunk, fail, part int) *source {
	s := &source{name: name, max: max, chunk: chunk, fail: fail, part: part}
	rand.Reader = s
	return s
}

func bytesEq(a, b []byte) bool { return bytes.Equal(a, b) }
