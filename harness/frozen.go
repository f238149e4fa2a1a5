package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"github.com/aureleoules/btc"
)

// The concrete meaning of vfFreeze and vfFrozenOK: a fingerprint of the
// arguments and of the exported parameters and lists, and calls that use every
// unexported parameter. vfFreeze makes no call, and vfFrozenOK only ends a
// harness: its calls could replace what the code remembers of earlier ones.

var (
	vfFrozenArgs []interface{}
	vfFrozenFp   string
	vfQuietOn    bool
)

// vfQuiet: from now on, a call that ends the process must not write either
func vfQuiet(on bool) {
	vfQuietOn = on
	vfStat()
}

func vfFreeze(args ...interface{}) {
	vfFrozenArgs = args
	vfFrozenFp = vfFingerprint()
}

func vfFrozenOK() bool { return vfFingerprint() == vfFrozenFp && vfParamsOK() }

func fpValue(b *strings.Builder, x interface{}) {
	switch v := x.(type) {
	case *btc.Network:
		fmt.Fprintf(b, "N%p %q %q;", v, v.PrivKeyPrefix, v.PubKeyHashPrefix)
	case *btc.PrivateKey:
		fmt.Fprintf(b, "K%s %q %q", v.Key, v.Hex, v.WIF)
		fpValue(b, v.Network)
	case *btc.PublicKey:
		fmt.Fprintf(b, "P%s %s", v.X, v.Y)
		fpValue(b, v.Network)
	case btc.Wordlist:
		h := sha256.Sum256([]byte(strings.Join(v, "\n")))
		fmt.Fprintf(b, "L%d %x;", len(v), h)
	default:
		fmt.Fprintf(b, "?%v;", x)
	}
}

func vfFingerprint() string {
	var b strings.Builder
	for _, a := range vfFrozenArgs {
		fpValue(&b, a)
	}
	fpValue(&b, btc.MainNetwork)
	fpValue(&b, btc.TestNetwork)
	for i := 0; i < 9; i++ {
		fpValue(&b, pickList(i))
	}
	return b.String()
}

// vfParamsOK: calls that use every unexported parameter give the right results
func vfParamsOK() bool {
	for _, k := range []*big.Int{big.NewInt(1), big.NewInt(2), new(big.Int).Rsh(ecN, 1), new(big.Int).Sub(ecN, big.NewInt(2))} {
		x, y := vfBase(k)
		p := &btc.PrivateKey{Key: new(big.Int).Set(k), Network: btc.MainNetwork}
		q, ok := p.GetPublicKey()
		if !ok || q.X.Cmp(x) != 0 || q.Y.Cmp(y) != 0 {
			return false
		}
		f := vfHex(sec1(x, y, true), nil)
		if !strings.EqualFold(q.Format(true), f) {
			return false
		}
		r, err := btc.PublicFromHex(f, btc.TestNetwork)
		if err != nil || r.X.Cmp(x) != 0 || r.Y.Cmp(y) != 0 {
			return false
		}
	}
	for _, d := range []int64{-1, 0, 1} {
		k := new(big.Int).Add(ecN, big.NewInt(d))
		if _, err := btc.PrivateFromHex(vfHex(be32(k), nil), btc.MainNetwork); (err == nil) != (d < 0) {
			return false
		}
		x := new(big.Int).Add(ecP, big.NewInt(d))
		want := d < 0 && new(big.Int).ModSqrt(ecRHS(x), ecP) != nil
		if _, err := btc.PublicFromHex("02"+vfHex(be32(x), nil), btc.MainNetwork); (err == nil) != want {
			return false
		}
	}
	x, y := vfBase(big.NewInt(5))
	s, err := btc.AddPublicKeys(&btc.PublicKey{X: x, Y: y, Network: btc.MainNetwork}, &btc.PublicKey{X: new(big.Int).Set(ecGx), Y: new(big.Int).Set(ecGy), Network: btc.MainNetwork}, false)
	if err != nil {
		return false
	}
	x, y = vfBase(big.NewInt(6))
	return s.X.Cmp(x) == 0 && s.Y.Cmp(y) == 0
}
