package main

// The jobs of each property and tier.

import (
	"fmt"
	"strings"
)

func jobsOf(prop, tier string) []job {
	var r []job
	th := tier == "thorough"
	add := func(fn, f string, a ...interface{}) { r = append(r, job{fn: fn, params: fmt.Sprintf(f, a...)}) }
	switch prop {
	case "C01":
		add("C01", "seq=1")
		add("C01", "seq=0")
	case "C02":
		for comp := 0; comp < 2; comp++ {
			add("C02", "comp=%d,seq=0", comp)
			add("C02", "comp=%d,seq=1", comp)
		}
		add("C02round", "")
	case "C03":
		ns := []int{33, 34, 0, 1, 2, 21, 35}
		bad := []int{1, 3, 51, 52}
		if th {
			ns, bad = nil, nil
			for n := 0; n <= 64; n++ {
				ns = append(ns, n)
				if n > 0 {
					bad = append(bad, n)
				}
			}
		}
		add("C03", "n=33,seq=1")
		for _, n := range ns {
			add("C03", "n=%d,seq=0", n)
		}
		for n := 0; n < 4; n++ {
			add("C03short", "n=%d", n)
		}
		for _, n := range bad {
			add("C03bad", "n=%d", n)
		}
		add("C03wrap", "comp=0")
		add("C03wrap", "comp=1")
	case "C04":
		ns := []int{33, 34, 32, 35, 0, 1, 21, 31, 36, 65}
		bad := []int{1, 51, 52}
		if th {
			ns, bad = nil, nil
			for n := 0; n <= 80; n++ {
				ns = append(ns, n)
				if n > 0 && n < 64 {
					bad = append(bad, n)
				}
			}
		}
		for _, n := range ns {
			add("C04", "n=%d", n)
		}
		for n := 0; n < 4; n++ {
			add("C04short", "n=%d", n)
		}
		for _, n := range bad {
			add("C04bad", "n=%d", n)
		}
		add("C04wrap", "comp=0")
		add("C04wrap", "comp=1")
	case "C05":
		add("C05", "n=64")
		add("C05num", "")
		ns := []int{0, 1, 2, 32, 62, 63, 65, 66, 128}
		if th {
			ns = nil
			for n := 0; n <= 140; n++ {
				if n != 64 {
					ns = append(ns, n)
				}
			}
		}
		for _, n := range ns {
			add("C05", "n=%d", n)
		}
	case "C06":
		add("C06", "max=32,chunk=0,imp=1")
		add("C06", "max=64,chunk=0,imp=0")
		add("C06", "max=32,chunk=16,imp=0")
		if th {
			add("C06", "max=96,chunk=0,imp=1")
			add("C06", "max=64,chunk=7,imp=1")
			add("C06", "max=64,chunk=1,imp=0")
		}
	case "C07":
		add("C07", "max=32,chunk=0")
		add("C07", "max=64,chunk=0")
		add("C07fail", "max=64,chunk=0,fail=0,part=0")
		add("C07fail", "max=64,chunk=0,fail=0,part=32")
		add("C07fail", "max=64,chunk=0,fail=1,part=0")
		add("C07fail", "max=64,chunk=16,fail=1,part=16")
		add("C07fail", "max=64,chunk=16,fail=1,part=5")
		if th {
			for fail := 0; fail < 4; fail++ {
				for _, part := range []int{0, 1, 7, 8, 31, 32} {
					add("C07fail", "max=96,chunk=8,fail=%d,part=%d", fail, part)
					add("C07fail", "max=128,chunk=0,fail=%d,part=%d", fail, part)
				}
			}
			add("C07", "max=64,chunk=16")
			add("C07", "max=64,chunk=1")
		}
	case "C08", "C09":
		add(prop, "via1=0,via2=2,eq=0,copy=0")
		add(prop, "via1=1,via2=3,eq=0,copy=1")
		add(prop, "via1=0,via2=3,eq=1,copy=0")
		add(prop, "via1=1,via2=2,eq=1,copy=1")
		add(prop+"net", "via1=3,via2=3,eq=0,copy=0")
		add(prop+"net", "via1=3,via2=3,eq=1,copy=1")
		if th {
			for a := 0; a < 4; a++ {
				for b := 0; b < 4; b++ {
					for eq := 0; eq < 2; eq++ {
						add(prop, "via1=%d,via2=%d,eq=%d,copy=0", a, b, eq)
						add(prop, "via1=%d,via2=%d,eq=%d,copy=1", a, b, eq)
						add(prop+"net", "via1=%d,via2=%d,eq=%d,copy=0", a, b, eq)
					}
				}
			}
		}
	case "C10":
		for via := 0; via < 4; via++ {
			add("C10", "via=%d,seq=0", via)
		}
		add("C10", "via=3,seq=1")
		for _, b := range []int{8, 256, 300, 520} {
			add("C10out", "bits=%d,neg=0", b)
			add("C10out", "bits=%d,neg=1", b)
		}
	case "C11":
		for comp := 1; comp >= 0; comp-- {
			add("C11", "comp=%d,seq=1", comp)
			add("C11", "comp=%d,seq=0", comp)
			add("C11prefix", "comp=%d", comp)
		}
		add("C11comp", "")
		add("C11unc", "")
		add("C11near", "")
		ns := []int{0, 1, 2, 3, 64, 65, 67, 128, 129, 131}
		at := []int{0, 1, 2, 3, 65}
		if th {
			ns, at = nil, nil
			for n := 0; n <= 140; n++ {
				if n != 66 && n != 130 {
					ns = append(ns, n)
				}
			}
			for n := 0; n < 130; n++ {
				at = append(at, n)
			}
		}
		for _, n := range ns {
			add("C11len", "n=%d", n)
		}
		for _, d := range []int{-64, -2, -1, 1, 2, 64} {
			for comp := 0; comp < 2; comp++ {
				add("C11trunc", "d=%d,comp=%d", d, comp)
			}
		}
		for _, n := range at {
			for comp := 0; comp < 2; comp++ {
				if comp == 0 || n < 66 {
					add("C11nonhex", "at=%d,comp=%d", n, comp)
				}
			}
		}
		if !th {
			add("C11nonhex", "at=129,comp=0")
		}
		for comp := 0; comp < 2; comp++ {
			for at := 0; at < 3; at++ {
				for n := 1; n < 9; n++ {
					if n < 3 || th {
						add("C11wrap", "n=%d,at=%d,comp=%d", n, at, comp)
					}
				}
			}
		}
	case "C12":
		for comp := 0; comp < 2; comp++ {
			add("C12", "comp=%d,seq=1", comp)
			add("C12", "comp=%d,seq=0", comp)
			add("C12round", "comp=%d", comp)
		}
	case "C13":
		for comp := 1; comp >= 0; comp-- {
			add("C13", "comp=%d,seq=1", comp)
			add("C13key", "comp=%d", comp)
			add("C13", "comp=%d,seq=0", comp)
		}
	case "C14":
		add("C14", "rel=0,seq=1,copy=0")
		for rel := 0; rel < 3; rel++ {
			add("C14", "rel=%d,seq=0,copy=0", rel)
		}
		add("C14", "rel=1,seq=0,copy=1")
		add("C14", "rel=2,seq=1,copy=1")
		add("C14net", "rel=0")
		add("C14net", "rel=1")
		for w := 0; w < 3; w++ {
			for rel := 0; rel < 3; rel++ {
				add("C14off", "which=%d,rel=%d", w, rel)
			}
		}
		if th {
			add("C14", "rel=1,seq=1,copy=0")
		}
	case "C15":
		add("C15", "via1=3,via2=3,swap=0,comp=1")
		add("C15", "via1=0,via2=1,swap=1,comp=0")
		add("C15", "via1=1,via2=2,swap=0,comp=1")
		add("C15", "via1=2,via2=3,swap=1,comp=1")
		add("C15", "via1=3,via2=0,swap=0,comp=0")
		if th {
			for a := 0; a < 4; a++ {
				for b := 0; b < 4; b++ {
					for c := 0; c < 2; c++ {
						add("C15", "via1=%d,via2=%d,swap=0,comp=%d", a, b, c)
						add("C15", "via1=%d,via2=%d,swap=1,comp=%d", a, b, c)
					}
				}
			}
		}
	case "C16":
		l := []int{0, 2, 4, 9, 8}
		for i, n := range wordCounts {
			add("C16", "words=%d,list=%d,chunk=0", n, l[i])
			add("C16inj", "words=%d,list=%d,chunk=0", n, l[(i+1)%5])
		}
		add("C16", "words=12,list=0,chunk=7")
		add("C16", "words=24,list=0,chunk=1")
		for _, z := range []int{-1, 0, 1, 2047, 2048, 2049} {
			add("C16bad", "list=0,size=%d", z)
		}
		add("C16bad", "list=2,size=2048")
		add("C16fail", "words=12,list=0,chunk=0,fail=0,part=0")
		add("C16fail", "words=12,list=0,chunk=0,fail=0,part=16")
		add("C16fail", "words=15,list=1,chunk=0,fail=0,part=19")
		add("C16fail", "words=24,list=0,chunk=8,fail=1,part=3")
		add("C16fail", "words=24,list=9,chunk=8,fail=3,part=7")
		add("C16fail", "words=18,list=0,chunk=1,fail=23,part=0")
		if th {
			for _, n := range wordCounts {
				for l := 0; l < 10; l++ {
					add("C16", "words=%d,list=%d,chunk=0", n, l)
					add("C16inj", "words=%d,list=%d,chunk=0", n, l)
				}
				for _, c := range []int{1, 3, 4, 11, 16} {
					add("C16", "words=%d,list=0,chunk=%d", n, c)
					add("C16inj", "words=%d,list=0,chunk=%d", n, c)
					for f := 0; f*c < n/3*4; f++ {
						add("C16fail", "words=%d,list=0,chunk=%d,fail=%d,part=0", n, c, f)
						if c > 1 {
							add("C16fail", "words=%d,list=0,chunk=%d,fail=%d,part=%d", n, c, f, c-1)
						}
					}
				}
				for part := 0; part < n/3*4; part++ {
					add("C16fail", "words=%d,list=0,chunk=0,fail=0,part=%d", n, part)
				}
			}
			for l := 1; l < 10; l++ {
				add("C16bad", "list=%d,size=2048", l)
			}
			for _, z := range []int{2, 12, 1024, 2046, 2050, 4096} {
				add("C16bad", "list=0,size=%d", z)
			}
		}
	case "C17":
		for i, n := range wordCounts {
			add("C17", "words=%d,list=%d", n, []int{0, 2, 9, 4, 7}[i])
		}
		for i, n := range []int{0, 1, 2, 3, 6, 9, 11, 13, 14, 16, 20, 22, 23, 25, 27} {
			add("C17", "words=%d,list=%d", n, []int{0, 9, 3}[i%3])
		}
		add("C17word", "words=12,list=0,at=0,len=0")
		add("C17word", "words=12,list=0,at=11,len=0")
		add("C17word", "words=24,list=0,at=23,len=3")
		add("C17word", "words=12,list=0,at=3,len=4")
		add("C17word", "words=12,list=0,at=11,len=5")
		add("C17word", "words=15,list=0,at=0,len=8")
		add("C17word", "words=12,list=0,at=5,len=9")
		add("C17word", "words=12,list=9,at=5,len=5")
		add("C17word", "words=12,list=4,at=11,len=6")
		for i, k := range []int{0, 1, 2, 4, 5} {
			add("C17space", "words=12,list=0,at=%d,kind=%d", []int{4, 0, 10, 3, 5}[i], k)
			add("C17space", "words=12,list=0,at=-1,kind=%d", k)
			add("C17space", "words=12,list=0,at=11,kind=%d", k)
		}
		add("C17space", "words=12,list=0,at=4,kind=3")
		add("C17space", "words=24,list=0,at=0,kind=3")
		add("C17space", "words=12,list=2,at=4,kind=4")
		for _, n := range []int{0, 1, 3} {
			add("C17free", "list=0,n=%d", n)
		}
		for i, z := range []int{-1, 0, 1, 2047, 2049, 2050} {
			add("C17list", "list=%d,size=%d,words=%d", i%3, z, wordCounts[i%5])
		}
		if th {
			for l := 0; l < 10; l++ {
				for _, n := range wordCounts {
					add("C17", "words=%d,list=%d", n, l)
				}
				for n := 0; n < 30; n++ {
					if l%4 == 1 && !(n%3 == 0 && n > 9 && n < 25) {
						add("C17", "words=%d,list=%d", n, l)
					}
				}
				add("C17list", "list=%d,size=2047,words=12", l)
			}
			for at := 0; at < 12; at++ {
				for n := 0; n <= 9; n++ {
					add("C17word", "words=12,list=0,at=%d,len=%d", at, n)
				}
			}
			for n := 10; n < 16; n++ {
				add("C17word", "words=12,list=0,at=2,len=%d", n)
			}
			for _, l := range []int{1, 2, 3, 4, 6} {
				for n := 0; n <= 12; n += 3 {
					add("C17word", "words=12,list=%d,at=4,len=%d", l, n)
				}
			}
			for at := -1; at < 12; at++ {
				for k := 0; k < 6; k++ {
					if k == 3 && (at < 0 || at == 11) {
						continue
					}
					add("C17space", "words=12,list=0,at=%d,kind=%d", at, k)
				}
			}
			for n := 2; n <= 8; n++ {
				add("C17free", "list=0,n=%d", n)
			}
			for z := 0; z < 2048; z += 128 {
				add("C17list", "list=0,size=%d,words=12", z)
			}
		}
	case "C18":
		for i, n := range wordCounts {
			add("C18", "words=%d,list=%d,pass=%d,seq=0", n, []int{0, 2, 8, 5, 9}[i], []int{4, 0, 1, 9, 65}[i])
		}
		add("C18", "words=12,list=0,pass=8,seq=1")
		add("C18", "words=24,list=2,pass=0,seq=1")
		add("C18", "words=15,list=0,pass=3,seq=1")
		add("C18", "words=12,list=0,pass=130,seq=0")
		add("C18", "words=12,list=1,pass=2,seq=0")
		add("C18", "words=15,list=0,pass=0,seq=2")
		add("C18", "words=15,list=0,pass=0,seq=3")
		if th {
			for l := 0; l < 10; l++ {
				for i, n := range wordCounts {
					add("C18", "words=%d,list=%d,pass=%d,seq=%d", n, l, i+l, (i+l)%2)
				}
			}
			for n := 0; n <= 130; n++ {
				add("C18", "words=12,list=0,pass=%d,seq=0", n)
			}
		}
	case "C19":
		for i, n := range wordCounts {
			add("C19", "words=%d,list=%d,chunk=0", n, []int{0, 2, 8, 4, 6}[i])
		}
		add("C19", "words=12,list=1,chunk=0")
		add("C19", "words=12,list=3,chunk=0")
		add("C19", "words=12,list=5,chunk=0")
		add("C19", "words=24,list=7,chunk=0")
		for i, n := range wordCounts {
			add("C16inj", "words=%d,list=%d,chunk=0", n, []int{0, 2, 8, 4, 6}[i])
		}
		add("C19", "words=12,list=0,chunk=5")
		if th {
			for _, n := range wordCounts {
				for l := 0; l < 10; l++ {
					add("C19", "words=%d,list=%d,chunk=0", n, l)
					add("C16inj", "words=%d,list=%d,chunk=0", n, l)
				}
				add("C19", "words=%d,list=0,chunk=1", n)
				add("C19", "words=%d,list=0,chunk=9", n)
			}
		}
	case "C21":
		if th {
			for net := 0; net < 2; net++ {
				for comp := 0; comp < 2; comp++ {
					for a := 0; a < 12; a++ {
						for b := 0; b < 12; b++ {
							add("C21", "a=%d,b=%d,net=%d,comp=%d,list=%d", a, b, net, comp, (a+b)%10)
						}
					}
				}
			}
		} else {
			for a := 0; a < 11; a++ {
				add("C21", "a=%d,b=%d,net=1,comp=%d,list=%d", a, a, a%2, a%9)
				add("C21", "a=%d,b=%d,net=%d,comp=%d,list=%d", a, (a*3+5)%11, a%2, 1-a%2, a%10)
			}
			add("C21", "a=11,b=11,net=1,comp=1,list=0")
			for a := 0; a < 11; a += 2 {
				add("C21", "a=11,b=%d,net=0,comp=0,list=0", a)
				add("C21", "a=%d,b=11,net=1,comp=1,list=0", (a+1)%11)
			}
		}
		for a := 0; a < 12; a++ {
			n := 70
			if a == 9 {
				n = 50
			}
			add("C21long", "a=%d,b=%d,calls=%d,again=0,net=%d,comp=%d,list=%d", a, a%11, n, a%2, 1-a%2, a%9)
			add("C21long", "a=%d,b=%d,calls=1,again=1,net=%d,comp=%d,list=%d", a, a%11, 1-a%2, a%2, a%10)
			if th {
				for b := 0; b < 11; b++ {
					add("C21long", "a=%d,b=%d,calls=%d,again=0,net=%d,comp=%d,list=%d", a, b, n*2, a%2, 1-a%2, a%9)
					add("C21long", "a=%d,b=%d,calls=1,again=1,net=%d,comp=%d,list=%d", a, b, b%2, a%2, a%10)
				}
				add("C21long", "a=%d,b=%d,calls=300,again=0,net=0,comp=0,list=0", a, a%11)
			}
		}
		add("C21lists", "a=9,b=9,list=7,list2=8,net=0,comp=1")
		add("C21lists", "a=9,b=9,list=0,list2=10,net=0,comp=1")
		add("C21lists", "a=9,b=9,list=0,list2=-1,net=0,comp=1")
		add("C21lists", "a=10,b=9,list=8,list2=7,net=1,comp=1")
		add("C21lists", "a=9,b=10,list=0,list2=-1,net=1,comp=0")
		add("C21lists", "a=10,b=10,list=10,list2=0,net=0,comp=0")
		if th {
			for l := 0; l < 11; l++ {
				for m := -1; m < 11; m++ {
					add("C21lists", "a=%d,b=%d,list=%d,list2=%d,net=0,comp=1", 9+l%2, 10-m&1, l, m)
				}
			}
		}
		inner(add, "C21any", th, "C03", "C04", "C05", "C07", "C11", "C14", "C16", "C17")
	case "C22":
		inner(add, "C22", th, "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C19")
	case "C23":
		inner(add, "C23", th, "C01", "C02", "C04", "C06", "C08", "C09", "C10", "C11", "C13", "C14", "C15")
	case "C24":
		add("C24", "a=11,b=11,same=0,warm=0,net=0,comp=1,list=0")
		for a := 0; a < 11; a++ {
			add("C24", "a=%d,b=11,same=0,warm=0,net=%d,comp=%d,list=0", a, a%2, a%2)
			add("C24", "a=11,b=%d,same=0,warm=0,net=%d,comp=%d,list=0", a, a%2, a%2)
		}
		for a := 0; a < 12; a++ {
			add("C24", "a=%d,b=%d,same=1,warm=0,net=%d,comp=%d,list=%d", a, a, a%2, a%2, a%9)
		}
		for a := 0; a < 11; a++ {
			b := (a*3 + 5) % 11
			add("C24", "a=%d,b=%d,same=0,warm=0,net=%d,comp=%d,list=%d", a, a, a%2, 1-a%2, a%9)
			add("C24", "a=%d,b=%d,same=0,warm=1,net=%d,comp=%d,list=%d", a, a, a%2, 1-a%2, a%9)
			add("C24", "a=%d,b=%d,same=0,warm=0,net=%d,comp=%d,list=%d", a, b, a%2, a%2, a%9)
			add("C24", "a=%d,b=%d,same=0,warm=0,net=%d,comp=%d,list=%d", b, a, b%2, b%2, b%9)
		}
		if th {
			for a := 0; a < 12; a++ {
				for b := 0; b < 12; b++ {
					for w := 0; w < 2; w++ {
						for net := 0; net < 2; net++ {
							add("C24", "a=%d,b=%d,same=0,warm=%d,net=%d,comp=%d,list=%d", a, b, w, net, w, (a+b)%10)
						}
					}
				}
			}
		}
	case "C20":
		for l := 0; l < 9; l++ {
			add("C20", "list=%d", l)
		}
	}
	return r
}

var wordCounts = []int{12, 15, 18, 21, 24}

// inner adds the jobs of other properties under a harness that watches them:
// one job of each harness, or all the quick ones
func inner(add func(string, string, ...interface{}), fn string, all bool, props ...string) {
	seen := map[string]int{}
	for _, p := range props {
		for _, j := range jobsOf(p, "quick") {
			h := -1
			for i, n := range harnessList {
				if n == j.fn {
					h = i
				}
			}
			if h < 0 {
				continue
			}
			seen[j.fn]++
			if !all && seen[j.fn] > 2 {
				continue
			}
			ps := fmt.Sprintf("h=%d", h)
			if j.params != "" {
				ps += "," + j.params
			}
			add(fn, "%s", ps)
		}
	}
}

// as harnessNames in harness/ops.go
var harnessList = strings.Split("C01,C02,C03,C03short,C03bad,C04,C04bad,C05,C05num,C06,C07fail,C08,C08net,C09,C09net,C10,C10out,C11,C11comp,C11unc,C11len,C11nonhex,C11prefix,C12,C13,C14,C14net,C14off,C16,C16bad,C16fail,C17,C17word,C17space,C17list,C18,C19,C15,C11wrap,C13key,C02round,C07", ",")
