package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
	"strconv"
	"strings"

	"github.com/aureleoules/btc"
	"golang.org/x/crypto/pbkdf2"
)

var listNames = []string{"english", "french", "japanese", "italian", "spanish", "korean", "czech", "chinese_traditional", "chinese_simplified"}

func pickList(i int) btc.Wordlist {
	switch i {
	case 0:
		return btc.EnglishWordlist
	case 1:
		return btc.FrenchWordlist
	case 2:
		return btc.JapaneseWordlist
	case 3:
		return btc.ItalianWordlist
	case 4:
		return btc.SpanishWordlist
	case 5:
		return btc.KoreanWordlist
	case 6:
		return btc.CzechWordlist
	case 7:
		return btc.ChineseTraditionalWordlist
	case 8:
		return btc.ChineseSimplifiedWordlist
	}
	if i == 10 { // the English words with two of them exchanged
		l := append(btc.Wordlist{}, btc.EnglishWordlist...)
		l[3], l[7] = l[7], l[3]
		return l
	}
	// a list of the caller: words of any length, not sorted
	l := make(btc.Wordlist, 2048)
	for j := range l {
		l[j] = "w" + strconv.Itoa((j*5+7)%2048)
	}
	return l
}

// sized cuts or extends a list
func sized(l btc.Wordlist, n int) btc.Wordlist {
	r := make(btc.Wordlist, 0, n)
	for i := 0; i < n; i++ {
		if i < len(l) {
			r = append(r, l[i])
		} else {
			r = append(r, "extra"+strconv.Itoa(i))
		}
	}
	return r
}

// bits39 cuts the indices of a phrase into entropy and checksum
func bits39(idx []int) (entropy []byte, sum byte) {
	v := new(big.Int)
	for _, i := range idx {
		v.Lsh(v, 11)
		v.Or(v, big.NewInt(int64(i)))
	}
	cs := uint(len(idx) / 3)
	e := new(big.Int).Rsh(v, cs)
	low := new(big.Int).And(v, new(big.Int).Sub(vfPow2c(cs), big.NewInt(1)))
	return e.FillBytes(make([]byte, len(idx)/3*4)), byte(low.Uint64())
}

func sum39(entropy []byte, words int) byte {
	h := sha256.Sum256(entropy)
	return h[0] >> uint(8-words/3)
}

func okCount(n int) bool { return n == 12 || n == 15 || n == 18 || n == 21 || n == 24 }

// indices finds the words of a phrase in the list
func indices(phrase string, list btc.Wordlist) ([]int, bool) {
	ok := true
	var idx []int
	for _, w := range strings.Split(phrase, " ") {
		i := vfWordIndex(list, w)
		ok = vfAnd(ok, i >= 0)
		idx = append(idx, i)
	}
	return idx, ok
}

// C16: params words, list, chunk
func C16() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	s := useSource("rand", 2*n/3*4, vfParam("chunk"), -1, 0)
	phrase, err := btc.NewMnemonic(n, list)
	req(err == nil, "no error")
	if err != nil {
		return
	}
	idx, ok := indices(phrase, list)
	req(len(idx) == n, "the right number of words, single spaces")
	if len(idx) != n {
		return
	}
	req(ok, "all words are of the list")
	if !ok {
		return
	}
	ent, sum := bits39(idx)
	req(sum == sum39(ent, n), "the checksum bits are those of SHA256 of the entropy")
	req(len(s.drawn) >= n/3*4, "as many random bits as bits of entropy")
}

// C16inj: two phrases from two random sources
func C16inj() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	need := n / 3 * 4
	s1 := useSource("rand1", need*2, vfParam("chunk"), -1, 0)
	p1, err1 := btc.NewMnemonic(n, list)
	d1 := s1.drawn
	s2 := useSource("rand2", need*2, vfParam("chunk"), -1, 0)
	p2, err2 := btc.NewMnemonic(n, list)
	d2 := s2.drawn
	req(err1 == nil && err2 == nil, "no error")
	if err1 != nil || err2 != nil || len(d1) != len(d2) || len(d1) >= 2*need {
		return
	}
	i1, ok1 := indices(p1, list)
	i2, ok2 := indices(p2, list)
	if len(i1) != n || len(i2) != n || !ok1 || !ok2 {
		return
	}
	e1, _ := bits39(i1)
	e2, _ := bits39(i2)
	vfAssume(!bytesEq(d1, d2))
	req(!bytesEq(e1, e2), "different draws give different entropy")
	req(p1 != p2, "different draws give different phrases")
}

// C16bad: other word counts; params list, size (of the list), lo, hi
func C16bad() {
	list := pickList(vfParam("list"))
	if z := vfParam("size"); z < 0 {
		list = nil
	} else if z != 2048 {
		list = sized(list, z)
	}
	n := vfInt("words", 0, 4095) - 2048
	if vfParam("size") == 2048 {
		vfAssume(!vfOr(vfOr(n == 12, n == 15), vfOr(n == 18, vfOr(n == 21, n == 24))))
	}
	useSource("rand", 64, 0, -1, 0)
	p, err := btc.NewMnemonic(n, list)
	req(err != nil, "refused with an error")
	req(p == "", "no phrase is returned")
}

// C16fail: the random source fails at some read
func C16fail() {
	n := vfParam("words")
	s := useSource("rand", 2*n/3*4, vfParam("chunk"), vfParam("fail"), vfParam("part"))
	p, err := btc.NewMnemonic(n, pickList(vfParam("list")))
	if !s.failed {
		return
	}
	req(err != nil, "the failure is reported")
	req(p == "", "no phrase is returned")
}

func phraseOf(list btc.Wordlist, idx []int) string {
	var ws []string
	for _, i := range idx {
		ws = append(ws, list[i])
	}
	return strings.Join(ws, " ")
}

func anyIdx(n int) []int {
	var idx []int
	for i := 0; i < n; i++ {
		idx = append(idx, vfInt("i", 0, 2047))
	}
	return idx
}

func wantNoSeed(seed []byte, err error) {
	req(err != nil, "refused with an error")
	req(len(seed) == 0, "no seed is returned")
}

// C17: every sequence of n words of the list
func C17() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	idx := anyIdx(n)
	seed, err := btc.NewSeedFromMnemonic(phraseOf(list, idx), "", list)
	if !okCount(n) {
		wantNoSeed(seed, err)
		return
	}
	ent, sum := bits39(idx)
	if sum != sum39(ent, n) {
		wantNoSeed(seed, err)
		return
	}
	req(err == nil, "a valid phrase is accepted")
	req(len(seed) == 64, "a seed is returned")
}

// valid39 is any valid phrase: its indices
func valid39(n int) []int { return words39(vfBytes("entropy", n/3*4), n) }

// words39: the indices of the n words for an entropy
func words39(ent []byte, n int) []int {
	v := new(big.Int).SetBytes(ent)
	cs := uint(n / 3)
	v.Lsh(v, cs)
	v.Or(v, big.NewInt(int64(sum39(ent, n))))
	idx := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		idx[i] = int(new(big.Int).And(v, big.NewInt(2047)).Int64())
		v = new(big.Int).Rsh(v, 11)
	}
	return idx
}

// C17word: word number at is any string of len bytes without a space
func C17word() {
	n, at := vfParam("words"), vfParam("at")
	list := pickList(vfParam("list"))
	b := vfBytes("word", vfParam("len"))
	nosp := true
	for _, c := range b {
		nosp = vfAnd(nosp, c != ' ')
	}
	vfAssume(nosp)
	w := string(b)
	idx := anyIdx(n)
	var ws []string
	for j, i := range idx {
		if j == at {
			ws = append(ws, w)
		} else {
			ws = append(ws, list[i])
		}
	}
	vfAssume(vfWordIndex(list, w) < 0)
	seed, err := btc.NewSeedFromMnemonic(strings.Join(ws, " "), "", list)
	wantNoSeed(seed, err)
}

// C17space: words of the list with one separator that is not a single space,
// or something in front of them or behind them; params words, list, at (-1:
// in front, words-1: behind), kind
func C17space() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	idx := anyIdx(n)
	at := vfParam("at")
	var sep string
	switch vfParam("kind") {
	case 0:
		// one byte that is not of a word
		b := vfBytes("sep", 1)
		vfAssume(vfAnd(b[0] < 0x30, b[0] != ' '))
		sep = string(b)
	case 1:
		// such a byte beside a space, or two spaces
		b := vfBytes("sep", 1)
		vfAssume(b[0] < 0x30)
		sep = " " + string(b)
	case 2:
		b := vfBytes("sep", 1)
		vfAssume(b[0] < 0x30)
		sep = string(b) + " "
	case 3:
		sep = ""
	case 4:
		sep = "\u3000"
	case 5:
		sep = "\u00a0"
	}
	var p string
	switch {
	case at < 0:
		p = sep + phraseOf(list, idx)
	case at >= n-1:
		p = phraseOf(list, idx) + sep
	default:
		p = phraseOf(list, idx[:at+1]) + sep + phraseOf(list, idx[at+1:])
	}
	seed, err := btc.NewSeedFromMnemonic(p, "", list)
	wantNoSeed(seed, err)
}

// C17free: every string of n bytes (shorter than any valid phrase)
func C17free() {
	list := pickList(vfParam("list"))
	seed, err := btc.NewSeedFromMnemonic(string(vfBytes("str", vfParam("n"))), "", list)
	wantNoSeed(seed, err)
}

// C17list: a list that has not 2048 words
func C17list() {
	list := pickList(vfParam("list"))
	n := vfParam("words")
	idx := valid39(n)
	z := vfParam("size")
	var l btc.Wordlist
	if z >= 0 {
		l = sized(list, z)
	}
	seed, err := btc.NewSeedFromMnemonic(phraseOf(list, idx), "", l)
	wantNoSeed(seed, err)
}

// joined is a valid phrase of 15 words of which 12 are a valid phrase, after
// the seed of those with the other three as the passphrase was asked for:
// the text of phrase and passphrase together is the same. seq 2: the first
// 12 words, 3: the last 12
func joined(list btc.Wordlist, seq int) string {
	idx := make([]int, 15)
	idx[11] = 3 // words 0 and 3: 128 zero bits and their checksum
	pos := 12
	if seq == 3 {
		pos = 0
		idx[11], idx[14] = 0, 3
	}
	for i := 0; i < 3; i++ {
		idx[pos+i] = vfInt("i", 0, 2047)
	}
	ent, sum := bits39(idx)
	vfAssume(sum == sum39(ent, 15))
	ph, pw := phraseOf(list, idx[:12]), " "+phraseOf(list, idx[12:])
	if seq == 3 {
		ph, pw = phraseOf(list, idx[3:]), phraseOf(list, idx[:3])+" "
	}
	s, err := btc.NewSeedFromMnemonic(ph, pw, list)
	req(err == nil, "a valid phrase is accepted")
	req(bytesEq(s, pbkdf2.Key([]byte(ph), []byte("mnemonic"+pw), 2048, 64, sha512.New)), "first call: the BIP39 seed")
	return phraseOf(list, idx)
}

// C18: params words, list, pass (bytes of the passphrase), seq
func C18() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	if vfParam("seq") == 1 {
		pw := string(vfBytes("pass0", 3))
		ph := phraseOf(list, valid39(12))
		s0, err := btc.NewSeedFromMnemonic(ph, pw, list)
		req(err == nil, "a valid phrase is accepted")
		want := pbkdf2.Key([]byte(ph), []byte("mnemonic"+pw), 2048, 64, sha512.New)
		defer func() { req(bytesEq(s0, want), "first call: the BIP39 seed") }()
	}
	pass := string(vfBytes("pass", vfParam("pass")))
	phrase := phraseOf(list, valid39(n))
	if vfParam("seq") > 1 {
		phrase = joined(list, vfParam("seq"))
	}
	seed, err := btc.NewSeedFromMnemonic(phrase, pass, list)
	req(err == nil, "a valid phrase is accepted")
	if err != nil {
		return
	}
	req(len(seed) == 64, "64 bytes")
	req(bytesEq(seed, pbkdf2.Key([]byte(phrase), []byte("mnemonic"+pass), 2048, 64, sha512.New)), "the BIP39 seed")
}

// C19: params words, list, chunk
func C19() {
	n := vfParam("words")
	list := pickList(vfParam("list"))
	useSource("rand", n/3*4, vfParam("chunk"), -1, 0)
	phrase, err := btc.NewMnemonic(n, list)
	req(err == nil, "no error")
	if err != nil {
		return
	}
	seed, err := btc.NewSeedFromMnemonic(phrase, "", list)
	req(err == nil, "the generated phrase is accepted")
	req(len(seed) == 64, "with a seed")
}

// C20: every entry of a shipped list
func C20() {
	k := vfParam("list")
	list := pickList(k)
	gold := golden(k)
	req(len(list) == 2048, "2048 entries")
	if len(list) != 2048 {
		return
	}
	i := vfInt("i", 0, 2047)
	req(list[i] == gold[i], "entry i is word i of the official list")
	j := vfInt("j", 0, 2047)
	if i != j {
		req(list[i] != list[j], "the words are pairwise different")
	}
	req(!strings.Contains(list[i], " "), "no spaces")
	req(list[i] != "", "not empty")
}
