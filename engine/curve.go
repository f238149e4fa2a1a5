package main

// secp256k1 facts used by the abstraction of points as multiples of G.

import "math/big"

func hexBig(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var curveP = hexBig("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
var curveN = hexBig("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
var curveGx = hexBig("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
var curveGy = hexBig("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")

func ecAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		s := new(big.Int).Add(y1, y2)
		if s.Mod(s, curveP).Sign() == 0 {
			return nil, nil
		}
		l = new(big.Int).Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(y1, 1)
		d.ModInverse(d, curveP)
		l.Mul(l, d)
	} else {
		l = new(big.Int).Sub(y2, y1)
		d := new(big.Int).Sub(x2, x1)
		d.Mod(d, curveP)
		d.ModInverse(d, curveP)
		l.Mul(l, d)
	}
	l.Mod(l, curveP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, curveP)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, curveP)
	return x, y
}

func ecMul(k *big.Int) (*big.Int, *big.Int) {
	k = new(big.Int).Mod(k, curveN)
	var rx, ry *big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		rx, ry = ecAdd(rx, ry, rx, ry)
		if k.Bit(i) == 1 {
			rx, ry = ecAdd(rx, ry, curveGx, curveGy)
		}
	}
	return rx, ry
}

func ecOn(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	l.Sub(l, r)
	return l.Mod(l, curveP).Sign() == 0
}

// knownPoints: constant coordinates whose scalar is known (G and folded multiples)
var knownScalar = map[string]*big.Int{}

func noteScalar(x, y, k *big.Int) { knownScalar[x.Text(16)+","+y.Text(16)] = k }

func init() {
	pm1 := new(big.Int).Sub(curveP, bigOne)
	declUF("gx", []int{256}, 256, pm1, func(a []*big.Int) *big.Int {
		k := new(big.Int).Mod(a[0], curveN)
		if k.Sign() == 0 {
			return nil
		}
		x, y := ecMul(k)
		noteScalar(x, y, k)
		return x
	}).lb = bigOne
	declUF("gy", []int{256}, 256, pm1, func(a []*big.Int) *big.Int {
		k := new(big.Int).Mod(a[0], curveN)
		if k.Sign() == 0 {
			return nil
		}
		x, y := ecMul(k)
		noteScalar(x, y, k)
		return y
	}).lb = bigOne
	// scalar of an on-curve point given by its coordinates
	declUF("dlog", []int{256, 256}, 256, new(big.Int).Sub(curveN, bigOne), nil)
	// is (x, y) a point of the curve (x, y < 2^256 taken mod p)
	declUF("oncurve", []int{256, 256}, 0, nil, func(a []*big.Int) *big.Int {
		if ecOn(a[0], a[1]) {
			return bigOne
		}
		return bigZero
	})
	// is x the abscissa of a point, and the scalar of the root that GetY returns
	declUF("liftx", []int{256}, 0, nil, func(a []*big.Int) *big.Int {
		if liftX(a[0]) != nil {
			return bigOne
		}
		return bigZero
	})
	declUF("rootx", []int{256}, 256, pm1, nil)
	declUF("qroot", []int{256}, 0, nil, nil)
	noteScalar(curveGx, curveGy, bigOne)
}

func liftX(x *big.Int) *big.Int {
	r := new(big.Int).Exp(x, big.NewInt(3), curveP)
	r.Add(r, big.NewInt(7))
	r.Mod(r, curveP)
	return new(big.Int).ModSqrt(r, curveP)
}
