//go:build go1.23

package main

import (
	"math/rand"

	"github.com/fdymylja/tmos/runtime/kv"
)

func init() { families["kv"] = runKV }

// keys and values are short byte strings, written as lists of numbers in the traces
func bytesOf(v interface{}) []byte {
	b := []byte{}
	for _, x := range list(v) {
		b = append(b, byte(num(x)))
	}
	return b
}

func numsOf(b []byte) []interface{} {
	r := []interface{}{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

type kvEnv struct {
	tr    int
	s     kv.KV
	iters map[int]kv.Iterator
	lent  [][2][]byte // values handed out, and what they were
}

func (e *kvEnv) content() []interface{} {
	r := []interface{}{}
	for _, db := range findDBs([]interface{}{e.s}) {
		for _, p := range dumpDB(db) {
			r = append(r, []interface{}{numsOf(p.k), numsOf(p.v)})
		}
	}
	return r
}

func drain(it kv.Iterator, max int) []interface{} {
	r := []interface{}{}
	for n := 0; it.Valid() && n < max; n++ {
		r = append(r, []interface{}{numsOf(it.Key()), numsOf(it.Value())})
		it.Next()
	}
	return r
}

func (e *kvEnv) do(op M) {
	L := M{"tr": e.tr}
	for k, v := range op {
		L[k] = v
	}
	L["panic"] = guarded(func() {
		switch op["op"] {
		case "set":
			k, v := bytesOf(op["k"]), bytesOf(op["v"])
			e.s.Set(k, v)
			// what the caller does with its slices afterwards does not matter
			for _, b := range [][]byte{k, v} {
				for i := range b {
					b[i] ^= 0xff
				}
			}
		case "get":
			v, ok := e.s.Get(bytesOf(op["k"]))
			L["ok"], L["got"] = ok, numsOf(v)
			if ok {
				e.lent = append(e.lent, [2][]byte{v, append([]byte{}, v...)})
			}
		case "has":
			L["ok"] = e.s.Has(bytesOf(op["k"]))
		case "delete":
			L["ok"] = e.s.Delete(bytesOf(op["k"]))
		case "range":
			it := e.s.Iterate(bytesOf(op["k"]), bytesOf(op["end"]))
			L["got"] = drain(it, 1000)
			it.Close()
		case "prefix":
			it := e.s.IteratePrefix(bytesOf(op["k"]))
			L["got"] = drain(it, 1000)
			it.Close()
		case "open", "openprefix":
			id := int(num(op["id"]))
			if old, ok := e.iters[id]; ok {
				old.Close()
			}
			if op["op"] == "open" {
				e.iters[id] = e.s.Iterate(bytesOf(op["k"]), bytesOf(op["end"]))
			} else {
				e.iters[id] = e.s.IteratePrefix(bytesOf(op["k"]))
			}
		case "next":
			it := e.iters[int(num(op["id"]))]
			L["got"] = drain(it, int(num(op["n"])))
			L["valid"] = it.Valid()
		}
	})
	// values which were handed out belong to the caller, they never change
	L["stable"] = true
	for _, l := range e.lent {
		if string(l[0]) != string(l[1]) {
			L["stable"] = false
		}
	}
	// and what the caller does with them does not matter
	if len(e.lent) > 0 && op["op"] == "get" {
		l := &e.lent[len(e.lent)-1]
		for i := range l[0] {
			l[0][i] ^= 0xff
		}
		l[1] = append([]byte{}, l[0]...)
	}
	L["post"] = e.content()
	out.emit(L)
}

func runKV(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	for tr := 1; tr <= n; tr++ {
		seed := rng.Int63()
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		r := rand.New(rand.NewSource(seed))
		e := &kvEnv{tr: tr, s: kv.NewBadger(), iters: map[int]kv.Iterator{}}
		out.emit(M{"tr": tr, "op": "init", "post": e.content()})
		if scripts != nil {
			for _, op := range scripts[tr-1] {
				e.do(op)
			}
		} else {
			for i := 0; i < *fLen; i++ {
				e.do(e.random(r))
			}
		}
		for _, it := range e.iters {
			it.Close()
		}
		closeDBs(findDBs([]interface{}{e.s}))
	}
}

func (e *kvEnv) random(rng *rand.Rand) M {
	str := func(min int) []interface{} {
		b := []byte{}
		for n := min + rng.Intn(4-min); n > 0; n-- {
			b = append(b, pick[byte](rng, 0, 1, 0x2f, 0x30, 0x61, 0x7f, 0x80, 0xfe, 0xff, 0xff))
		}
		return numsOf(b)
	}
	// mostly keys which exist
	key := func() []interface{} {
		c := e.content()
		if len(c) > 0 && chance(rng, 55) {
			return c[rng.Intn(len(c))].([]interface{})[0].([]interface{})
		}
		return str(1)
	}
	bound := func() []interface{} {
		k := key()
		if chance(rng, 30) {
			return str(0)
		}
		if len(k) > 1 && chance(rng, 40) {
			return k[:len(k)-1]
		}
		return k
	}
	switch x := rng.Intn(100); {
	case x < 35:
		return M{"op": "set", "k": key(), "v": str(0)}
	case x < 45:
		return M{"op": "get", "k": key()}
	case x < 50:
		return M{"op": "has", "k": key()}
	case x < 62:
		return M{"op": "delete", "k": key()}
	case x < 72:
		return M{"op": "range", "k": bound(), "end": bound()}
	case x < 80:
		return M{"op": "prefix", "k": bound()}
	case x < 85:
		return M{"op": "open", "id": rng.Intn(2), "k": bound(), "end": bound()}
	case x < 90:
		return M{"op": "openprefix", "id": rng.Intn(2), "k": bound()}
	default:
		id := rng.Intn(2)
		if _, ok := e.iters[id]; !ok {
			return M{"op": "openprefix", "id": id, "k": bound()}
		}
		return M{"op": "next", "id": id, "n": rng.Intn(4)}
	}
}
