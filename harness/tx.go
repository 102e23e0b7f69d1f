//go:build go1.23

package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/cosmos/cosmos-sdk/types/bech32"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	coinv1 "github.com/fdymylja/tmos/core/coin/v1alpha1"
	meta "github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/x/authn/tx"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func init() {
	families["tx"] = runTx
}

// txEnv decodes transactions with one decoder
type txEnv struct {
	tr     int
	prefix string
	d      *tx.Decoder
	names  map[string]string // address -> key
	done   []decoded
}

type decoded struct {
	bytes []byte
	tx    authentication.Tx
	proj  string
}

const txKeys = 6

// public keys, the last one is no point of the curve
func txKey(i int) []byte {
	if i == txKeys-1 {
		return []byte(strings.Repeat("\xff", 33))
	}
	return newKey(i).pk[2:]
}

func address(prefix string, pub []byte) string {
	s := sha256.Sum256(pub)
	r := ripemd160.New()
	r.Write(s[:])
	a, err := bech32.ConvertAndEncode(prefix, r.Sum(nil))
	must(err)
	return a
}

// ---------- wire encoding, written without the code under test ----------

type wire struct {
	num    protowire.Number
	b      []byte // tag and value
	single bool
}

func wBytes(n protowire.Number, v []byte) wire {
	return wire{n, protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), v), false}
}

func wUint(n protowire.Number, v uint64) wire {
	return wire{n, protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), v), true}
}

func wStr(n protowire.Number, v string) wire {
	w := wBytes(n, []byte(v))
	w.single = true
	return w
}

// wired joins fields: those of different numbers in any order, scalars which occur once possibly
// preceded by another value
func wired(rng *rand.Rand, fs []wire) []byte {
	if rng != nil && chance(rng, 60) {
		var more []wire
		for _, f := range fs {
			if f.single && chance(rng, 10) {
				o := wUint(f.num, 77)
				if f.b[0]&7 == byte(protowire.BytesType) {
					o = wStr(f.num, "superseded")
				}
				more = append(more, o)
			}
			more = append(more, f)
		}
		fs = more
		for i := 0; i < 8; i++ {
			for j := 0; j+1 < len(fs); j++ {
				if fs[j].num != fs[j+1].num && chance(rng, 40) {
					fs[j], fs[j+1] = fs[j+1], fs[j]
				}
			}
		}
	}
	var b []byte
	for _, f := range fs {
		b = append(b, f.b...)
	}
	return b
}

// a message in a singular field, possibly in two parts, which are merged
func wMsg(rng *rand.Rand, n protowire.Number, fs []wire) []wire {
	if rng != nil && len(fs) > 1 && chance(rng, 12) {
		k := 1 + rng.Intn(len(fs)-1)
		return []wire{wBytes(n, wired(nil, fs[:k])), wBytes(n, wired(nil, fs[k:]))}
	}
	return []wire{wBytes(n, wired(rng, fs))}
}

// fields which are not known: new numbers, or known numbers with other wire types
func stray(rng *rand.Rand, known protowire.Number) []byte {
	n := pick(rng, protowire.Number(15), 1000, 2048, 1<<29-1)
	if chance(rng, 20) && known != 0 {
		return protowire.AppendFixed32(protowire.AppendTag(nil, known, protowire.Fixed32Type), 7)
	}
	switch rng.Intn(4) {
	case 0:
		return protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), uint64(rng.Intn(2)))
	case 1:
		return protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), []byte{1})
	case 2:
		return protowire.AppendFixed64(protowire.AppendTag(nil, n, protowire.Fixed64Type), 1)
	}
	return protowire.AppendGroup(protowire.AppendTag(nil, n, protowire.StartGroupType), n, nil)
}

func junk(rng *rand.Rand) []byte {
	return pick(rng, []byte{0x07}, []byte{0x00, 0x00}, []byte{0x0a, 0x05, 0x01}, []byte{0x80}, []byte{0x08, 0xff})
}

const (
	strayHere = "unknown"
	strayDeep = "deep"
)

// message content number v of the given type; ok is whether the type has submessages
func txMessage(name string, v int) proto.Message {
	s := fmt.Sprintf("v%d", v)
	switch name {
	case "tmos.x.bank.v1alpha1.MsgSendCoins", sendAlias:
		return &bankv1.MsgSendCoins{FromAddress: "a" + s, ToAddress: "b" + s, Amount: []*coinv1.Coin{{Denom: "d" + s, Amount: fmt.Sprint(v)}}}
	case "tmos.x.authn.v1alpha1.MsgCreateAccount":
		return &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: s, Sequence: uint64(v)}}
	case "tmos.core.rbac.v1alpha1.MsgCreateRole":
		return &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: s, Gets: []string{"x", s}}}
	case "tmos.core.rbac.v1alpha1.MsgBindRole":
		return &rbacv1.MsgBindRole{RoleId: s, Subject: "x" + s}
	case "google.protobuf.StringValue":
		return wrapperspb.String(s)
	case "tmos.core.coin.v1alpha1.Coin":
		return &coinv1.Coin{Denom: s, Amount: "1"}
	case "tmos.x.authn.v1alpha1.Account":
		return &authnv1.Account{Address: s}
	}
	return &rbacv1.MsgBindRole{RoleId: s, Subject: "y" + s} // of an unknown type
}

const sendAlias = "cosmos.bank.v1beta1.MsgSend"

// a stray field within the first submessage of m
func strayWithin(rng *rand.Rand, m proto.Message) bool {
	found := false
	m.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil || fd.IsMap() {
			return true
		}
		sub := v
		if fd.IsList() {
			sub = v.List().Get(v.List().Len() - 1)
		}
		sub.Message().SetUnknown(stray(rng, 0))
		found = true
		return false
	})
	return found
}

func contentOf(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:5])
}

// encode returns the bytes of the transaction op describes, and completes op
func (e *txEnv) encode(op M) []byte {
	// each part is always written the same way in the same style
	rng := rand.New(rand.NewSource(num(op["style"])))
	authRng, rawRng := rand.New(rand.NewSource(num(op["style"])+1)), rand.New(rand.NewSource(num(op["style"])+2))
	at := str(op["stray"])
	used := false
	here := func(place string, known protowire.Number) []byte {
		if at != place || used {
			return nil
		}
		used = true
		return stray(rng, known)
	}
	var body []wire
	for _, x := range list(op["msgs"]) {
		m := x.(M)
		c := txMessage(str(m["name"]), int(num(m["v"])))
		m["v"] = contentOf(c)
		switch m["form"] {
		case strayHere:
			c.ProtoReflect().SetUnknown(stray(rng, 0))
		case strayDeep:
			if !strayWithin(rng, c) {
				m["form"] = "ok"
			}
		}
		b, err := proto.Marshal(c)
		must(err)
		if m["form"] == "junk" {
			b = append(b, junk(rng)...)
		}
		fs := []wire{wStr(1, str(m["pre"])+str(m["name"])), wBytes(2, b)}
		w := wired(rng, fs)
		body = append(body, wBytes(1, append(w, here("any", 1)...)))
	}
	if m := str(op["memo"]); m != "" {
		body = append(body, wStr(2, m))
	}
	if t := str(op["tm"]); t != "" && t != "0" {
		var v uint64
		fmt.Sscan(t, &v)
		body = append(body, wUint(3, v))
	}
	option, err := anypb.New(wrapperspb.String("option"))
	must(err)
	ob, err := proto.Marshal(option)
	must(err)
	if boolean(op["crit"]) {
		body = append(body, wBytes(1023, ob))
	}
	if boolean(op["noncrit"]) {
		body = append(body, wBytes(2047, ob))
	}
	finish := func(form string, b []byte, place string, known protowire.Number) []byte {
		b = append(b, here(place, known)...)
		switch form {
		case "empty":
			return nil
		case "junk":
			return append(b, junk(rng)...)
		case "utf8":
			return append(b, wStr(2, "a\xffb").b...)
		}
		return b
	}
	bodyB := finish(str(op["body"]), wired(rng, body), "body", 2)

	rng = authRng
	var auth []wire
	for _, x := range list(op["signers"]) {
		s := x.(M)
		var fs []wire
		if s["form"] != "none" {
			k := txKey(int(num(s["k"])))
			switch s["form"] {
			case "short":
				k = k[:32]
			case "long":
				k = append(append([]byte{}, k...), 0)
			case "uncompressed":
				k = append(append([]byte{}, k...), k[1:]...)
			case "empty":
				k = nil
			}
			var kb []byte
			if k != nil {
				kb = wBytes(1, k).b
			}
			if s["form"] == strayHere {
				kb = append(kb, stray(rng, 0)...)
			}
			if s["form"] == "junk" {
				kb = append(kb, junk(rng)...)
			}
			w := wired(rng, []wire{wStr(1, str(s["pre"])+str(s["name"])), wBytes(2, kb)})
			fs = append(fs, wBytes(1, append(w, here("keyany", 1)...)))
		}
		var mode []wire
		single := func(n uint64) []wire {
			sb := []byte{}
			if n != 0 {
				sb = wUint(1, n).b
			}
			return []wire{wBytes(1, append(sb, here("single", 1)...))}
		}
		multi := func() wire { return wBytes(2, wBytes(2, wBytes(1, wUint(1, 1).b).b).b) }
		switch s["mode"] {
		case "direct":
			mode = single(1)
		case "unspecified":
			mode = single(0)
		case "textual":
			mode = single(2)
		case "amino":
			mode = single(127)
		case "other":
			mode = single(uint64(pick(rng, 3, 99, 128)))
		case "multi":
			mode = []wire{multi()}
		case "direct-after-multi": // the last one of a oneof counts
			mode = append([]wire{multi()}, single(1)...)
		case "multi-after-direct":
			mode = append(single(1), multi())
		case "nosum":
		}
		if s["mode"] != "none" {
			b := wired(nil, mode)
			fs = append(fs, wBytes(2, append(b, here("mode", 1)...)))
		}
		var seq uint64
		fmt.Sscan(str(s["seq"]), &seq)
		if seq != 0 {
			fs = append(fs, wUint(3, seq))
		}
		auth = append(auth, wBytes(1, append(wired(rng, fs), here("signer", 3)...)))
	}
	fee := op["fee"].(M)
	if boolean(fee["there"]) {
		var fs []wire
		for _, x := range list(fee["coins"]) {
			c := x.([]interface{})
			b := wired(rng, []wire{wStr(1, str(c[1])), wStr(2, str(c[0]))})
			fs = append(fs, wBytes(1, append(b, here("coin", 1)...)))
		}
		fs = append(fs, wUint(2, 5))
		if p := str(fee["payer"]); p != "" {
			switch {
			case strings.HasPrefix(p, "k"):
				p = address(e.prefix, txKey(int(p[1]-'0')))
			case strings.HasPrefix(p, "K"): // another spelling of the same address
				p = strings.ToUpper(address(e.prefix, txKey(int(p[1]-'0'))))
			}
			fs = append(fs, wStr(3, p))
		}
		if st := here("fee", 2); st != nil {
			fs = append(fs, wire{1 << 20, st, false})
		}
		auth = append(auth, wMsg(rng, 2, fs)...)
	}
	authB := finish(str(op["auth"]), wired(rng, auth), "auth", 1)

	rng = rawRng
	var raw []wire
	if bodyB != nil {
		w := wBytes(1, bodyB)
		w.single = true
		raw = append(raw, w)
	} else if chance(rng, 50) {
		raw = append(raw, wBytes(1, nil))
	}
	if authB != nil {
		w := wBytes(2, authB)
		w.single = true
		raw = append(raw, w)
	} else if chance(rng, 50) {
		raw = append(raw, wBytes(2, nil))
	}
	for _, x := range list(op["sigs"]) {
		raw = append(raw, wBytes(3, []byte(str(x))))
	}
	b := finish(str(op["raw"]), wired(rng, raw), "raw", 1)
	if !used {
		op["stray"] = ""
	}
	op["bh"], op["ah"] = hash(bodyB), hash(authB)
	return b
}

func hash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:5])
}

func (e *txEnv) name(a string) string {
	if n, ok := e.names[a]; ok {
		return n
	}
	return "?" + a
}

// project reads a decoded transaction back
func (e *txEnv) project(t authentication.Tx, b []byte) M {
	msgs, users, signers, fee := []interface{}{}, []string{}, []interface{}{}, []interface{}{}
	for _, m := range t.StateTransitions() {
		msgs = append(msgs, M{"name": string(m.ProtoReflect().Descriptor().FullName()), "v": contentOf(m)})
	}
	for _, u := range t.Users().List() {
		users = append(users, e.name(u.GetName()))
	}
	sort.Strings(users)
	for _, c := range t.Fee() {
		fee = append(fee, []interface{}{c.Amount, c.Denom})
	}
	r := M{"msgs": msgs, "users": users, "fee": fee, "payer": e.name(t.Payer()), "same": string(t.RawBytes()) == string(b), "bh": "", "ah": ""}
	if w, ok := t.(*tx.Wrapper); ok {
		for _, s := range w.Signers() {
			signers = append(signers, M{"a": e.name(s.Address), "key": hash(s.PubKey.Bytes()), "sig": string(s.Signature), "seq": fmt.Sprint(s.Sequence)})
		}
		r["bh"], r["ah"] = hash(w.TxRaw().BodyBytes), hash(w.TxRaw().AuthInfoBytes)
		sigs := []interface{}{}
		for _, s := range w.TxRaw().Signatures {
			sigs = append(sigs, string(s))
		}
		r["sigs"] = sigs
	}
	r["signers"] = signers
	if raw, ok := t.Raw().(*authnv1.Tx); ok {
		r["memo"], r["tm"] = raw.Body.Memo, fmt.Sprint(raw.Body.TimeoutHeight)
	}
	return r
}

func (e *txEnv) try(b []byte) (t authentication.Tx, err error, pn string) {
	pn = guarded(func() { t, err = e.d.Decode(append([]byte{}, b...)) })
	return
}

func (e *txEnv) decode(op M) {
	op = clone(op)
	for _, x := range list(op["signers"]) {
		s := x.(M)
		s["a"], s["key"] = fmt.Sprintf("k%d", num(s["k"])), hash(txKey(int(num(s["k"]))))
	}
	b := e.encode(op)
	t, err, pn := e.try(b)
	L := M{"tr": e.tr, "panic": pn, "ok": err == nil && pn == "", "out": M{}, "nil": t == nil}
	for k, v := range op {
		L[k] = v
	}
	d := decoded{bytes: b}
	if err == nil && pn == "" {
		p := e.project(t, b)
		L["out"] = p
		j, _ := json.Marshal(p)
		d.tx, d.proj = t, string(j)
	}
	e.done = append(e.done, d)
	out.emit(L)
}

// clone copies what was read from JSON or made for it
func clone(m M) M {
	b, err := json.Marshal(m)
	must(err)
	r := M{}
	must(json.Unmarshal(b, &r))
	return r
}

// again decodes everything at the same time with the same decoder, and looks at what was decoded before
func (e *txEnv) again() {
	stable, same := true, true
	var mu sync.Mutex
	pn := guarded(func() {
		for _, d := range e.done {
			if d.tx != nil {
				j, _ := json.Marshal(e.project(d.tx, d.bytes))
				stable = stable && string(j) == d.proj
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := range e.done {
					d := e.done[(i*(2*g+1)+g)%len(e.done)]
					var t authentication.Tx
					var err error
					stage, ok := "decoding", false
					func() {
						defer func() {
							if recover() != nil { // a panic of the decoder is a refusal
								ok = stage == "decoding" && d.tx == nil
							}
						}()
						t, err = e.d.Decode(append([]byte{}, d.bytes...))
						stage = "decoded"
						if err != nil {
							ok = d.tx == nil
						} else {
							j, _ := json.Marshal(e.project(t, d.bytes))
							ok = string(j) == d.proj
						}
					}()
					mu.Lock()
					same = same && ok
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
	})
	out.emit(M{"tr": e.tr, "op": "again", "panic": pn, "stable": stable, "same": same, "n": len(e.done)})
}

func transitions() (r []interface{}) {
	names := []string{}
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if _, ok := mt.New().Interface().(meta.StateTransition); ok {
			names = append(names, string(mt.Descriptor().FullName()))
		}
		return true
	})
	sort.Strings(names)
	for _, n := range names {
		r = append(r, n)
	}
	return
}

func runTx(rng *rand.Rand) {
	var scripts [][]M
	if *fScript != "" {
		scripts = readScripts(*fScript)
	} else {
		for i := 0; i < *fN; i++ {
			var ops []M
			for j := 0; j < *fLen; j++ {
				op := randomTx(rng)
				if j > 0 && chance(rng, 40) {
					op = varied(rng, ops[rng.Intn(j)])
				} else {
					op["style"] = float64(rng.Intn(1 << 30))
				}
				ops = append(ops, op)
			}
			scripts = append(scripts, ops)
		}
	}
	for i, ops := range scripts {
		tr := i + 1
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		prefix := []string{"test", "cosmos", "a"}[i%3]
		e := &txEnv{tr: tr, prefix: prefix, d: tx.NewDecoder(prefix), names: map[string]string{}}
		for k := 0; k < txKeys; k++ {
			e.names[address(prefix, txKey(k))] = fmt.Sprintf("k%d", k)
		}
		out.emit(M{"tr": tr, "op": "cfg", "prefix": prefix, "transitions": transitions(),
			"alias": sendAlias, "send": "tmos.x.bank.v1alpha1.MsgSendCoins",
			"keyalias": "cosmos.crypto.secp256k1.PubKey", "keytype": "tmos.x.authn.crypto.v1alpha1.PubKey"})
		for j, op := range ops {
			if op["style"] == nil {
				op["style"] = float64(int(*fSeed)*7919 + i*1000 + j)
			}
			e.decode(op)
		}
		e.again()
	}
}

var (
	goodNames  = []string{"tmos.x.bank.v1alpha1.MsgSendCoins", "tmos.x.authn.v1alpha1.MsgCreateAccount", "tmos.core.rbac.v1alpha1.MsgCreateRole", "tmos.core.rbac.v1alpha1.MsgBindRole"}
	oddNames   = []string{"google.protobuf.StringValue", "tmos.core.coin.v1alpha1.Coin", "tmos.x.authn.v1alpha1.Account", "tmos.nothing.Msg", "", "cosmos.bank.v1beta1.MsgMultiSend", "tmos.x.bank.v1alpha1.MsgSendCoins/", "MsgSendCoins"}
	strayPlace = []string{"raw", "body", "auth", "any", "keyany", "single", "mode", "signer", "coin", "fee"}
)

func randomTx(rng *rand.Rand) M {
	nm, ns := pick(rng, 1, 1, 1, 2, 3), pick(rng, 1, 1, 1, 2, 2, 3)
	faults := pick(rng, 0, 0, 0, 0, 1, 1, 1, 1, 2)
	msgs, signers, sigs := []interface{}{}, []interface{}{}, []interface{}{}
	for i := 0; i < nm; i++ {
		m := M{"pre": pick(rng, "/", "/", "/", "type.googleapis.com/", "a/b/", "//", ""), "name": pick(rng, goodNames...), "form": "ok", "v": float64(rng.Intn(5))}
		if chance(rng, 15) {
			m["pre"], m["name"] = "/", sendAlias
		}
		msgs = append(msgs, m)
	}
	for i := 0; i < ns; i++ {
		s := M{"k": float64(rng.Intn(txKeys)), "pre": "/", "name": pick(rng, "tmos.x.authn.crypto.v1alpha1.PubKey", "cosmos.crypto.secp256k1.PubKey"), "form": "ok",
			"mode": pick(rng, "direct", "direct", "direct", "direct", "direct", "direct-after-multi"), "seq": pick(rng, "0", "1", "7", "300", "18446744073709551615")}
		signers = append(signers, s)
		sigs = append(sigs, pick(rng, "s", "t", "sig", "")+fmt.Sprint(rng.Intn(3)))
	}
	coins := []interface{}{}
	for i := 0; i < pick(rng, 1, 1, 2, 3); i++ {
		coins = append(coins, []interface{}{pick(rng, "1", "0", "-5", "x", "99999999999999999999999999", ""), pick(rng, "atom", "btc", "", "a b", "ATOM")})
	}
	fee := M{"there": true, "coins": coins, "payer": pick(rng, "", "", "", "k0", "k1")}
	if chance(rng, 40) {
		fee["payer"] = fmt.Sprintf("k%d", num(signers[rng.Intn(ns)].(M)["k"]))
	}
	op := M{"op": "decode", "raw": "ok", "body": "ok", "auth": "ok", "msgs": msgs, "memo": pick(rng, "", "", "m", "a longer memo\x00"), "tm": pick(rng, "0", "0", "5", "18446744073709551615"),
		"crit": false, "noncrit": chance(rng, 10), "fee": fee, "signers": signers, "sigs": sigs, "stray": ""}
	for f := 0; f < faults; f++ {
		i, j := rng.Intn(nm), 0
		if len(signers) > 0 {
			j = rng.Intn(len(signers))
		}
		switch rng.Intn(17) {
		case 0:
			op["raw"] = pick(rng, "junk", "empty")
		case 1:
			op["body"] = pick(rng, "junk", "empty", "utf8")
		case 2:
			op["auth"] = pick(rng, "junk", "empty")
		case 3, 4, 5, 6:
			op["stray"] = pick(rng, strayPlace...)
		case 7:
			op["crit"] = true
		case 8:
			if len(list(op["msgs"])) > 0 {
				msgs[i].(M)["name"] = pick(rng, oddNames...)
			}
		case 9:
			if len(list(op["msgs"])) > 0 {
				msgs[i].(M)["form"] = pick(rng, "junk", strayHere, strayDeep, strayDeep)
			}
		case 10:
			if chance(rng, 30) {
				op["msgs"] = []interface{}{}
			} else {
				m := msgs[i].(M)
				m["pre"], m["name"] = pick(rng, "", "type.googleapis.com/", "/x/"), sendAlias
			}
		case 11:
			switch rng.Intn(4) {
			case 0:
				op["fee"] = M{"there": false, "coins": []interface{}{}, "payer": ""}
			case 1:
				fee["coins"] = []interface{}{}
			default:
				fee["payer"] = pick(rng, "K0", "K1", "stranger", "k4", " k0", "test1")
				if len(signers) > 0 && chance(rng, 50) {
					fee["payer"] = fmt.Sprintf("K%d", num(signers[j].(M)["k"]))
				}
			}
		case 12, 13:
			if len(signers) > 0 {
				signers[j].(M)["form"] = pick(rng, "none", "junk", strayHere, "short", "long", "empty", "uncompressed")
			}
		case 14:
			if len(signers) > 0 {
				signers[j].(M)["mode"] = pick(rng, "none", "nosum", "multi", "multi-after-direct", "unspecified", "textual", "amino", "other")
			}
		case 15:
			if len(signers) > 0 {
				s := signers[j].(M)
				switch rng.Intn(3) {
				case 0:
					s["name"] = pick(rng, "tmos.x.authn.crypto.v1alpha1.PrivKey", "cosmos.crypto.ed25519.PubKey", "google.protobuf.StringValue", "", "cosmos.crypto.secp256k1.PrivKey", "tmos.nothing.PubKey")
				default:
					s["pre"] = pick(rng, "", "type.googleapis.com/", "//", "x")
				}
			}
		case 16:
			switch rng.Intn(4) {
			case 0:
				sigs = append(sigs, "more")
			case 1:
				if len(sigs) > 0 {
					sigs = sigs[1:]
				}
			case 2:
				signers = []interface{}{}
			case 3:
				signers, sigs = []interface{}{}, []interface{}{}
			}
			op["sigs"], op["signers"] = sigs, signers
		}
	}
	return op
}

// varied returns a transaction which shares parts with another one, byte for byte
func varied(rng *rand.Rand, op M) M {
	op = clone(op)
	for i := 0; i < pick(rng, 0, 1, 1, 2); i++ {
		switch rng.Intn(5) {
		case 0:
			sigs := list(op["sigs"])
			if len(sigs) > 0 {
				sigs[rng.Intn(len(sigs))] = pick(rng, "other", "s0", "s1", "t2")
			}
		case 1:
			op["memo"] = pick(rng, "", "n", "o")
		case 2:
			if ms := list(op["msgs"]); len(ms) > 0 {
				ms[rng.Intn(len(ms))].(M)["v"] = float64(rng.Intn(5))
			}
		case 3:
			if ss := list(op["signers"]); len(ss) > 0 {
				ss[rng.Intn(len(ss))].(M)[pick(rng, "seq", "seq", "mode")] = pick(rng, "0", "2", "9")
			}
		case 4:
			o := randomTx(rng)
			k := pick(rng, "msgs", "fee", "sigs", "signers", "stray")
			op[k] = o[k]
		}
	}
	for _, x := range list(op["signers"]) {
		switch s := x.(M); s["mode"] {
		case "0", "2", "9":
			s["mode"] = pick(rng, "direct", "textual", "multi")
		}
	}
	return op
}
