//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"

	"google.golang.org/protobuf/proto"

	coinv1 "github.com/fdymylja/tmos/core/coin/v1alpha1"
)

func init() {
	families["coin"] = runCoin
}

var (
	digitsOnly = regexp.MustCompile(`^[0-9]+$`)
	denomForm  = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/]{2,127}$`)
)

// digits of a decimal number, the lowest first, without leading zeros
func digits(s string) []interface{} {
	r := []interface{}{}
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, int(s[i]-'0'))
	}
	for len(r) > 0 && r[len(r)-1].(int) == 0 {
		r = r[:len(r)-1]
	}
	return r
}

func coinAbs(c *coinv1.Coin) M {
	ok := digitsOnly.MatchString(c.Amount)
	m := M{"d": fmt.Sprintf("%q", c.Denom), "dok": denomForm.MatchString(c.Denom), "ok": ok, "n": []interface{}{}, "canon": false}
	if ok {
		m["n"] = digits(c.Amount)
		m["canon"] = c.Amount == "0" || c.Amount[0] != '0'
	}
	bs := []interface{}{}
	for i := 0; i < len(c.Denom) && i < 200; i++ {
		bs = append(bs, int(c.Denom[i]))
	}
	m["ds"] = bs
	return m
}

func coinsAbs(cs []*coinv1.Coin) []interface{} {
	r := []interface{}{}
	for _, c := range cs {
		r = append(r, coinAbs(c))
	}
	return r
}

func coinList(v interface{}) (r []*coinv1.Coin) {
	for _, x := range list(v) {
		c := x.([]interface{})
		r = append(r, &coinv1.Coin{Amount: amountOf(str(c[0])), Denom: str(c[1])})
	}
	return
}

// amountOf reads "2^n+m" and "2^n-m" besides literal amounts
func amountOf(s string) string {
	var n uint
	var m int64
	if k, _ := fmt.Sscanf(s, "2^%d%d", &n, &m); k == 2 {
		x := new(big.Int).Lsh(big.NewInt(1), n)
		return x.Add(x, big.NewInt(m)).String()
	}
	return s
}

func wireOf(cs []*coinv1.Coin) string {
	r := ""
	for _, c := range cs {
		b, err := proto.Marshal(c)
		must(err)
		r += string(b) + "|"
	}
	return r
}

func runCoin(rng *rand.Rand) {
	var scripts [][]M
	if *fScript != "" {
		scripts = readScripts(*fScript)
	} else {
		for i := 0; i < *fN; i++ {
			var ops []M
			for j := 0; j < *fLen; j++ {
				op := M{"op": pick(rng, "add", "sub", "sub"), "a": randomCoins(rng), "b": randomCoins(rng), "chain": chance(rng, 30)}
				if chance(rng, 45) {
					op["chain"], op["b"] = false, similar(rng, list(op["a"]))
				}
				ops = append(ops, op)
			}
			scripts = append(scripts, ops)
		}
	}
	for i, ops := range scripts {
		tr := i + 1
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		out.emit(M{"tr": tr, "op": "cfg", "max": digits(new(big.Int).Lsh(big.NewInt(1), 255).String())})
		var prev []*coinv1.Coin
		for _, op := range ops {
			b, err := json.Marshal(op) // as in a script
			must(err)
			op = M{}
			must(json.Unmarshal(b, &op))
			a, c := coinList(op["a"]), coinList(op["b"])
			if boolean(op["chain"]) && prev != nil {
				a = prev
			}
			before := wireOf(a) + "&" + wireOf(c)
			// what may be handed in may be longer than what is used
			a, c = append(make([]*coinv1.Coin, 0, len(a)+2), a...), append(make([]*coinv1.Coin, 0, len(c)+2), c...)
			L := M{"tr": tr, "op": op["op"], "a": coinsAbs(a), "b": coinsAbs(c)}
			var res []*coinv1.Coin
			L["panic"] = guarded(func() {
				if op["op"] == "add" {
					res, err = coinv1.SafeAdd(a, c)
				} else {
					res, err = coinv1.SafeSub(a, c)
				}
			})
			L["ok"] = err == nil && L["panic"] == ""
			L["out"] = []interface{}{}
			if L["ok"] == true {
				L["out"] = coinsAbs(res)
				prev = res
			}
			L["kept"] = wireOf(a)+"&"+wireOf(c) == before
			out.emit(L)
		}
	}
}

func randomCoins(rng *rand.Rand) []interface{} {
	denoms := []string{"atom", "btc", "BTC", "ibc/27394", "atomx", "ato", "aaa", "Zzz", "a1/"}
	rng.Shuffle(len(denoms), func(i, j int) { denoms[i], denoms[j] = denoms[j], denoms[i] })
	r := []interface{}{}
	for i := 0; i < pick(rng, 0, 1, 1, 1, 2, 2, 3, 5); i++ {
		amount := pick(rng, "0", "1", "9", "10", "99", "1000000000000000000", "18446744073709551615", "18446744073709551616", "9223372036854775807", "999999999999999999999999999999",
			"2^255-1", "2^254+0", "2^254-1", "2^128+0", "2^64+1", "2^53+1", fmt.Sprint(rng.Int63()), fmt.Sprint(rng.Intn(100)), fmt.Sprint(rng.Intn(100)))
		if chance(rng, 4) {
			amount = pick(rng, "", "-1", "+1", "-0", "1.5", "1e3", "0x10", " 1", "1 ", "1_000", "x", "2^255+0", "2^256-1", "2^400+0", "1,1atom", "007", "00", "1atom,2", "٣", ".5", "1.", "0.0")
		}
		denom := denoms[i]
		if chance(rng, 4) {
			denom = pick(rng, "", "at", "1atom", "at om", "atom ", " atom", "atom,1btc", "at-om", "at.om", "é€€€", "atom\n", "at", "/atom")
		}
		if chance(rng, 3) {
			denom = denoms[0]
		}
		if chance(rng, 1) {
			b := make([]byte, pick(rng, 128, 129))
			for i := range b {
				b[i] = 'a'
			}
			denom = string(b)
		}
		r = append(r, []interface{}{amount, denom})
	}
	return r
}

// similar coins: nearly the same amounts of some of the denominations, in any order
func similar(rng *rand.Rand, a []interface{}) []interface{} {
	r := []interface{}{}
	for _, x := range a {
		c := x.([]interface{})
		v, ok := new(big.Int).SetString(amountOf(str(c[0])), 10)
		if !ok || chance(rng, 25) {
			continue
		}
		switch rng.Intn(6) {
		case 0:
			v.Sub(v, big.NewInt(1))
		case 1:
			v.Rsh(v, 1)
		case 2:
			v.Sub(v, big.NewInt(int64(rng.Intn(2000))))
		case 3:
			if chance(rng, 30) {
				v.Add(v, big.NewInt(1))
			}
		}
		r = append(r, []interface{}{v.Abs(v).String(), c[1]})
	}
	rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}
