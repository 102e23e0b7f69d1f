//go:build go1.23

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v3"
	abcipb "github.com/fdymylja/tmos/core/abci/tendermint/abci"
	cryptopb "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() { families["chain"] = chainFamily }

const maxKeys = 6

var allKeys = func() []*key {
	r := make([]*key, maxKeys)
	for i := range r {
		r[i] = newKey(i)
	}
	return r
}()

var addrOf = func() map[string]string {
	m := map[string]string{}
	for _, k := range allKeys {
		m[k.name] = k.addr
	}
	return m
}()

var nameOf = func() map[string]string {
	m := map[string]string{}
	for _, k := range allKeys {
		m[k.addr] = k.name
	}
	return m
}()

// addr resolves a symbolic name of a script to an address
func addr(name string) string {
	if a, ok := addrOf[name]; ok {
		return a
	}
	if strings.HasPrefix(name, "long") { // long addresses around the sizes where varint lengths grow
		var n int
		fmt.Sscanf(name, "long%d", &n)
		return strings.Repeat("L", n)
	}
	return name
}

func symbol(address string) string {
	if n, ok := nameOf[address]; ok {
		return n
	}
	if len(address) > 40 && strings.Trim(address, "L") == "" {
		return fmt.Sprintf("long%d", len(address))
	}
	return address
}

// ---------- the composition ----------

type chainCfg struct {
	Keys    int                         `json:"keys"`
	Scale   int                         `json:"scale"` // amounts are multiples of 10^scale
	SeqBase uint64                      `json:"seqBase"`
	HBase   uint64                      `json:"hBase"`
	NumBase uint64                      `json:"numBase"`
	MaxMemo int                         `json:"maxMemo"`
	MaxSigs int                         `json:"maxSigs"`
	Chain   string                      `json:"chain"`
	Genesis map[string]map[string]int64 `json:"genesis"` // accounts with public key and balance
	NoPK    []string                    `json:"nopk"`    // genesis accounts without public key
	Order   []string                    `json:"order"`
	Roles   map[string][]string         `json:"roles"` // extra roles and what they deliver
	GenVU   []interface{}               `json:"genvu"` // validator updates recorded at genesis
}

type tgen struct {
	c   module.Client
	cfg *chainCfg
	vu  []*abcipb.ValidatorUpdate // to record at the next end block
	set bool
}

func (t *tgen) Initialize(c module.Client) module.Descriptor {
	t.c = c
	return module.NewDescriptorBuilder().
		Named("tgen").
		NeedsStateTransition(&authnv1.MsgCreateAccount{}).
		NeedsStateTransition(&bankv1.MsgSetBalance{}).
		NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		NeedsStateTransition(&rbacv1.MsgCreateRole{}).
		NeedsStateTransition(&rbacv1.MsgBindRole{}).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, t).
		WithGenesis(t).
		Build()
}

func (t *tgen) PostExec(statetransition.PostExecutionRequest) error {
	if !t.set {
		return nil
	}
	t.set = false
	return t.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: t.vu})
}

func (t *tgen) Default() error {
	for i := 0; i < t.cfg.Keys; i++ {
		name := allKeys[i].name
		bal, ok := t.cfg.Genesis[name]
		if !ok {
			continue
		}
		acc := &authnv1.Account{Address: addr(name), PubKey: pkAny(allKeys[i])}
		for _, n := range t.cfg.NoPK {
			if n == name {
				acc.PubKey = nil
			}
		}
		if err := t.c.Deliver(&authnv1.MsgCreateAccount{Account: acc}); err != nil {
			return err
		}
		if bal == nil {
			continue
		}
		if err := t.c.Deliver(&bankv1.MsgSetBalance{Address: addr(name), Amount: coinsOf(t.cfg, bal)}); err != nil {
			return err
		}
	}
	if len(t.cfg.GenVU) != 0 {
		vu, _ := scriptVU(t.cfg.GenVU)
		return t.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: vu})
	}
	return nil
}
func (t *tgen) Import(json.RawMessage) error           { panic("unused") }
func (t *tgen) Export() (s json.RawMessage, err error) { panic("unused") }

func pkAny(k *key) *anypb.Any {
	return &anypb.Any{TypeUrl: "/cosmos.crypto.secp256k1.PubKey", Value: k.pk}
}

func amount(cfg *chainCfg, n int64) string {
	return new(big.Int).Mul(big.NewInt(n), pow10(cfg.Scale)).String()
}

func coinsOf(cfg *chainCfg, m map[string]int64) []*coin.Coin {
	var r []*coin.Coin
	mm := M{}
	for d := range m {
		mm[d] = 1
	}
	for _, d := range sortedKeys(mm) {
		r = append(r, &coin.Coin{Denom: d, Amount: amount(cfg, m[d])})
	}
	return r
}

type chain struct {
	cfg   *chainCfg
	gen   *tgen
	rt    *runtime.Runtime
	app   runtime.ABCIApplication
	dbs   []*badger.DB
	names map[string]bool // universe of subjects
	roles map[string]bool
	ids   map[string]int // tx bytes -> id
	txs   [][]byte       // submitted transactions, and
	abs   []M            // their abstractions
	log   []replayOp
	h     uint64
}

// replayOp is what reaches the state machine: all that a node replays after a crash
type replayOp struct {
	kind string
	op   M
	tx   []byte
	res  string
}

func newChain(cfg *chainCfg) *chain {
	c := &chain{cfg: cfg, names: map[string]bool{}, roles: map[string]bool{}, ids: map[string]int{}}
	b := runtime.NewBuilder()
	c.gen = &tgen{cfg: cfg}
	for _, m := range cfg.Order {
		switch m {
		case "authn":
			a := authn.NewModule()
			b.AddModule(a)
			b.SetDecoder(a.GetTxDecoder())
		case "rbac":
			b.AddModule(rbac.NewModule())
		case "bank":
			b.AddModule(bank.NewModule())
		case "distribution":
			b.AddModule(distribution.NewModule())
		case "tgen":
			b.AddModule(c.gen)
		}
	}
	rt, err := b.Build()
	if err != nil {
		panic(err)
	}
	c.rt = rt
	c.app = runtime.NewABCIApplication(rt)
	for i := 0; i < cfg.Keys; i++ {
		c.names[allKeys[i].name] = true
	}
	for _, n := range []string{"fee_collector", "bank", "authn"} {
		c.names[n] = true
	}
	c.roles[rbacv1.ExternalAccountRoleID] = true
	c.dbs = findDBs(rt)
	return c
}

func (c *chain) close() { closeDBs(c.dbs) }

// initChain runs InitChain and moves the counters to the bases of the configuration
func (c *chain) initChain() {
	c.app.InitChain(abci.RequestInitChain{ChainId: c.cfg.Chain, Time: time.Unix(0, 0)})
	authnUser := user.NewUsersFromString("authn")
	p := new(authnv1.Params)
	must(c.rt.Get(meta.SingletonID, p))
	p.MaxMemoCharacters = uint64(c.cfg.MaxMemo)
	p.TxSigLimit = uint64(c.cfg.MaxSigs)
	must(c.rt.Update(authnUser, p))
	if c.cfg.NumBase != 0 {
		n := new(authnv1.CurrentAccountNumber)
		must(c.rt.Get(meta.SingletonID, n))
		n.Number += c.cfg.NumBase
		must(c.rt.Update(authnUser, n))
	}
	for name := range c.cfg.Genesis {
		a := new(authnv1.Account)
		must(c.rt.Get(meta.NewStringID(addr(name)), a))
		a.Sequence += c.cfg.SeqBase
		a.AccountNumber += c.cfg.NumBase
		must(c.rt.Update(authnUser, a))
	}
	for id, ds := range c.cfg.Roles {
		c.roles[id] = true
		r := &rbacv1.Role{Id: id}
		for _, d := range ds {
			r.Delivers = append(r.Delivers, msgNames[d])
		}
		must(c.rt.Create(user.NewUsersFromString("rbac"), r))
	}
}

var msgNames = map[string]string{
	"send":     meta.Name(&bankv1.MsgSendCoins{}),
	"create":   meta.Name(&authnv1.MsgCreateAccount{}),
	"setbal":   meta.Name(&bankv1.MsgSetBalance{}),
	"mkrole":   meta.Name(&rbacv1.MsgCreateRole{}),
	"bindrole": meta.Name(&rbacv1.MsgBindRole{}),
	"valset":   meta.Name(&abciv1.MsgSetValidatorUpdates{}),
}

// ---------- observation ----------

var modelled = []string{
	meta.Name(&bankv1.Balance{}), meta.Name(&authnv1.Account{}), meta.Name(&authnv1.CurrentAccountNumber{}),
	meta.Name(&rbacv1.Role{}), meta.Name(&rbacv1.RoleBinding{}),
	meta.Name(&abciv1.Stage{}), meta.Name(&abciv1.CurrentBlock{}), meta.Name(&abciv1.BeginBlockState{}),
	meta.Name(&abciv1.EndBlockState{}), meta.Name(&abciv1.ValidatorUpdates{}), meta.Name(&abciv1.InitChainInfo{}),
	meta.Name(&authnv1.Params{}),
}

func isModelled(k []byte) bool {
	for _, n := range modelled {
		if bytes.Contains(k, []byte(n)) {
			return true
		}
	}
	return false
}

func (c *chain) digest() string { return digest(c.dbs, nil) }

// get reads an object through the public API; absent objects are reported as such
func (c *chain) get(id meta.ID, o meta.StateObject) bool {
	var err error
	if p := guarded(func() { err = c.rt.Get(id, o) }); p != "" {
		return false
	}
	return err == nil
}

func (c *chain) dump() M {
	// whoever has an object is part of the universe, even if no operation mentioned it
	for _, db := range c.dbs {
		for _, p := range dumpDB(db) {
			for _, n := range []string{meta.Name(&bankv1.Balance{}), meta.Name(&authnv1.Account{}), meta.Name(&rbacv1.RoleBinding{})} {
				if bytes.HasPrefix(p.k, []byte(n+"/")) {
					c.names[symbol(string(p.k[len(n)+1:]))] = true
				}
			}
			if n := meta.Name(&rbacv1.Role{}); bytes.HasPrefix(p.k, []byte(n+"/")) {
				c.roles[string(p.k[len(n)+1:])] = true
			}
		}
	}
	acc, bal, bind, roles := M{}, M{}, M{}, M{}
	canon := true
	for n := range c.names {
		id := meta.NewStringID(addr(n))
		a := new(authnv1.Account)
		if c.get(id, a) {
			pk := "none"
			if a.PubKey != nil {
				h := sha256.Sum256(append([]byte(a.PubKey.TypeUrl), a.PubKey.Value...))
				pk = "x" + hex.EncodeToString(h[:3])
				for _, k := range allKeys {
					if bytes.Equal(a.PubKey.Value, pkAny(k).Value) {
						pk = k.name
					}
				}
			}
			acc[n] = M{"n": rel(a.AccountNumber, c.cfg.NumBase), "s": c.relSeq(n, a.Sequence), "pk": pk, "self": a.Address == addr(n)}
		}
		b := new(bankv1.Balance)
		if c.get(id, b) {
			m := M{}
			for _, x := range b.Balance {
				v, ok := new(big.Int).SetString(x.Amount, 10)
				if !ok || v.Sign() < 0 || v.String() != x.Amount {
					canon = false
					continue
				}
				q, r := new(big.Int).QuoRem(v, pow10(c.cfg.Scale), new(big.Int))
				if r.Sign() != 0 || !q.IsInt64() || q.Int64() > 1<<30 {
					canon = false
					continue
				}
				if _, dup := m[x.Denom]; dup {
					canon = false
				}
				if q.Sign() != 0 {
					m[x.Denom] = q.Int64()
				}
			}
			bal[n] = m
		}
		rb := new(rbacv1.RoleBinding)
		if c.get(id, rb) {
			bind[n] = rb.RoleRef
		}
	}
	for id := range c.roles {
		r := new(rbacv1.Role)
		if c.get(meta.NewStringID(id), r) {
			ds := []string{}
			for short, long := range msgNames {
				for _, d := range r.Delivers {
					if d == long {
						ds = append(ds, short)
					}
				}
			}
			sort.Strings(ds)
			roles[id] = ds
		}
	}
	num := new(authnv1.CurrentAccountNumber)
	c.get(meta.SingletonID, num)
	par := new(authnv1.Params)
	c.get(meta.SingletonID, par)
	st := new(abciv1.Stage)
	c.get(meta.SingletonID, st)
	cb := new(abciv1.CurrentBlock)
	c.get(meta.SingletonID, cb)
	bb := new(abciv1.BeginBlockState)
	c.get(meta.SingletonID, bb)
	eb := new(abciv1.EndBlockState)
	c.get(meta.SingletonID, eb)
	ic := new(abciv1.InitChainInfo)
	c.get(meta.SingletonID, ic)
	vu := new(abciv1.ValidatorUpdates)
	c.get(meta.SingletonID, vu)
	vus := []interface{}{}
	for _, v := range vu.ValidatorUpdates {
		vus = append(vus, vuAbs(v))
	}
	return M{"acc": acc, "bal": bal, "bind": bind, "roles": roles, "next": rel(num.Number, c.cfg.NumBase), "canon": canon,
		"maxMemo": rel(par.MaxMemoCharacters, 0), "maxSigs": rel(par.TxSigLimit, 0),
		"stage": st.Stage.String(), "h": rel(cb.BlockNumber, c.cfg.HBase), "chain": ic.ChainId,
		"bb":   bbAbs(c.cfg, bb.BeginBlock),
		"ebh":  rel(uint64(eb.GetEndBlock().GetHeight()), c.cfg.HBase),
		"vu":   vus,
		"rest": digest(c.dbs, isModelled), "dig": c.digest()}
}

// relSeq is the sequence of an account relative to where its counter started
func (c *chain) relSeq(n string, s uint64) int64 {
	if _, gen := c.cfg.Genesis[n]; gen {
		return rel(s, c.cfg.SeqBase)
	}
	return rel(s, 0)
}

func (c *chain) absSeq(n string, s int64) uint64 {
	if _, gen := c.cfg.Genesis[n]; gen {
		return c.cfg.SeqBase + uint64(s)
	}
	return uint64(s)
}

func vuAbs(v *abcipb.ValidatorUpdate) interface{} {
	k := string(v.GetPubKey().GetEd25519())
	if x := v.GetPubKey().GetSecp256K1(); x != nil {
		k = "secp:" + string(x)
	}
	return []interface{}{k, clamp(v.GetPower())}
}

func bbAbs(cfg *chainCfg, b *abcipb.RequestBeginBlock) M {
	return M{"hash": string(b.GetHash()), "h": rel(uint64(b.GetHeader().GetHeight()), cfg.HBase), "chain": b.GetHeader().GetChainId(),
		"prop": string(b.GetHeader().GetProposerAddress()), "time": b.GetHeader().GetTime().GetSeconds(),
		"byz": len(b.GetByzantineValidators()), "votes": len(b.GetLastCommitInfo().GetVotes()), "round": b.GetLastCommitInfo().GetRound(), "all": protoDigest(b)}
}

// protoDigest identifies the whole content of a message
func protoDigest(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:5])
}

// ownBegin is the call tendermint made, as the protobuf encoding of the two definitions says
func ownBegin(req *abci.RequestBeginBlock) *abcipb.RequestBeginBlock {
	b, err := req.Marshal()
	must(err)
	r := new(abcipb.RequestBeginBlock)
	must(proto.Unmarshal(b, r))
	return r
}

// ---------- transactions ----------

// scriptCoins builds the coins of a script and their abstraction: whether they are well formed,
// and if so the amount per denomination they stand for
func (c *chain) scriptCoins(v interface{}) ([]*coin.Coin, M) {
	ok := true
	sum := map[string]int64{}
	var r []*coin.Coin
	for _, e := range list(v) {
		p := list(e)
		d := str(p[0])
		switch a := p[1].(type) {
		case string:
			// malformed amounts
			r = append(r, &coin.Coin{Denom: d, Amount: strings.TrimPrefix(a, "raw:")})
			ok = false
		default:
			n := num(a)
			r = append(r, &coin.Coin{Denom: d, Amount: amount(c.cfg, n)})
			if n < 0 || len(d) < 3 || strings.ContainsAny(d, ", ") {
				ok = false
			}
			if n != 0 {
				if sum[d] != 0 {
					ok = false
				}
				sum[d] += n
			}
		}
	}
	m := M{}
	for d, n := range sum {
		if n != 0 && ok {
			m[d] = n
		}
	}
	return r, M{"ok": ok, "c": m}
}

func (c *chain) see(n string) string {
	if n != "" {
		c.names[n] = true
	}
	return addr(n)
}

func (c *chain) scriptMsg(op M) (meta.StateTransition, M) {
	switch t := str(op["t"]); t {
	case "send":
		coins, abs := c.scriptCoins(op["amt"])
		return &bankv1.MsgSendCoins{FromAddress: c.see(str(op["from"])), ToAddress: c.see(str(op["to"])), Amount: coins},
			M{"t": t, "from": str(op["from"]), "to": str(op["to"]), "amt": abs}
	case "create":
		if boolean(op["nil"]) {
			return &authnv1.MsgCreateAccount{}, M{"t": t, "addr": "", "pk": "none"}
		}
		a := &authnv1.Account{Address: c.see(str(op["addr"])), AccountNumber: uint64(num(op["num"])), Sequence: uint64(num(op["seq"]))}
		pk := "none"
		switch p := str(op["pk"]); {
		case p == "bogus":
			a.PubKey = &anypb.Any{TypeUrl: "pk", Value: []byte("x")}
			h := sha256.Sum256([]byte("pkx"))
			pk = "x" + hex.EncodeToString(h[:3])
		case strings.HasPrefix(p, "k"):
			a.PubKey = pkAny(allKeys[int(p[1]-'0')])
			pk = p
		}
		return &authnv1.MsgCreateAccount{Account: a}, M{"t": t, "addr": str(op["addr"]), "pk": pk}
	case "setbal":
		coins, abs := c.scriptCoins(op["amt"])
		return &bankv1.MsgSetBalance{Address: c.see(str(op["addr"])), Amount: coins}, M{"t": t, "addr": str(op["addr"]), "amt": abs}
	case "mkrole":
		id := str(op["id"])
		if boolean(op["nil"]) {
			return &rbacv1.MsgCreateRole{}, M{"t": t, "id": ""}
		}
		if id != "" {
			c.roles[id] = true
		}
		return &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: id}}, M{"t": t, "id": id}
	case "bindrole":
		return &rbacv1.MsgBindRole{RoleId: str(op["role"]), Subject: c.see(str(op["addr"]))}, M{"t": t, "role": str(op["role"]), "addr": str(op["addr"])}
	case "valset":
		vu, abs := scriptVU(op["vu"])
		return &abciv1.MsgSetValidatorUpdates{ValidatorUpdates: vu}, M{"t": t, "vu": abs}
	case "unknown":
		return &authnv1.MsgDeleteAccount{Account: &authnv1.Account{Address: c.see(str(op["addr"]))}}, M{"t": t}
	}
	panic(fmt.Sprintf("unknown message %v", op))
}

func scriptVU(v interface{}) ([]*abcipb.ValidatorUpdate, []interface{}) {
	var r []*abcipb.ValidatorUpdate
	abs := []interface{}{}
	for _, e := range list(v) {
		p := list(e)
		u := &abcipb.ValidatorUpdate{
			PubKey: &cryptopb.PublicKey{Sum: &cryptopb.PublicKey_Ed25519{Ed25519: []byte(str(p[0]))}},
			Power:  num(p[1]),
		}
		if k := str(p[0]); strings.HasPrefix(k, "secp:") {
			u.PubKey = &cryptopb.PublicKey{Sum: &cryptopb.PublicKey_Secp256K1{Secp256K1: []byte(k[5:])}}
		}
		r = append(r, u)
		abs = append(abs, vuAbs(u))
	}
	return r, abs
}

// buildTx signs the transaction of a script; what matters of it for its meaning is returned with it
func (c *chain) buildTx(op M) ([]byte, M) {
	st := c.dumpLight()
	var any []*anypb.Any
	msgs := []interface{}{}
	for i, m := range list(op["msgs"]) {
		msg, abs := c.scriptMsg(m.(M))
		a, err := anypb.New(msg)
		must(err)
		if str(abs["t"]) == "send" && i%2 == 1 {
			a.TypeUrl = "/cosmos.bank.v1beta1.MsgSend"
		}
		any = append(any, a)
		msgs = append(msgs, abs)
	}
	memo := int(num(op["memo"])) // its length in bytes, whatever the characters
	ch := str(op["mchr"])
	if ch == "" {
		ch = "m"
	}
	body := &authnv1.TxBody{Messages: any, Memo: strings.Repeat("m", memo%len(ch)) + strings.Repeat(ch, memo/len(ch))}
	tmSet, tmV := false, int64(0)
	if op["tm"] != nil {
		tmSet, tmV = true, num(op["tm"])
		if x := int64(c.cfg.HBase) + tmV; x > 0 {
			body.TimeoutHeight = uint64(x)
		} else {
			tmSet, tmV = false, 0
		}
	}
	if a := str(op["tmabs"]); a != "" { // any height at all
		fmt.Sscan(a, &body.TimeoutHeight)
		tmSet, tmV = body.TimeoutHeight != 0, rel(body.TimeoutHeight, c.cfg.HBase)
	}
	fee, feeAbs := c.scriptCoins(op["fee"])
	env := "ok"
	auth := &authnv1.AuthInfo{Fee: &authnv1.Fee{Amount: fee, GasLimit: 5}}
	if len(fee) == 0 {
		env = "nofee"
	}
	if len(any) == 0 {
		env = "nomsgs"
	}
	if p := str(op["payer"]); p != "" {
		auth.Fee.Payer = c.see(p)
	}
	if p := str(op["granter"]); p != "" { // nobody can grant fees: this means nothing
		auth.Fee.Granter = c.see(p)
	}
	if g := str(op["gas"]); g != "" { // and neither does this
		fmt.Sscan(g, &auth.Fee.GasLimit)
	}
	type sg struct {
		k, by  *key
		abs    M
		tamper string
		chain  string
		num    uint64
	}
	var sgs []sg
	for _, e := range list(op["signers"]) {
		s := e.(M)
		k := allKeys[num(s["k"])]
		by := k
		if s["by"] != nil {
			by = allKeys[num(s["by"])]
		}
		cur := st[k.name]
		seq := cur.seq + num(s["off"])
		if s["seq"] != nil {
			seq = num(s["seq"])
		}
		nm := cur.num + num(s["numoff"])
		absNum := c.cfg.NumBase + uint64(nm)
		switch x := str(s["numabs"]); {
		case strings.HasPrefix(x, "k"):
			nm = st[x].num
			absNum = c.cfg.NumBase + uint64(nm)
		case x != "":
			fmt.Sscan(x, &absNum)
			nm = rel(absNum, c.cfg.NumBase)
		}
		chainID := c.cfg.Chain
		if boolean(s["nochain"]) {
			chainID = ""
		}
		if x := str(s["chain"]); x != "" {
			chainID = x
		}
		auth.SignerInfos = append(auth.SignerInfos, &authnv1.SignerInfo{
			PublicKey: pkAny(k), Sequence: c.absSeq(k.name, seq),
			ModeInfo: &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: authnv1.SignMode_SIGN_MODE_DIRECT}}},
		})
		tamper := str(s["tamper"])
		good := by == k && tamper == ""
		sgs = append(sgs, sg{k, by, M{"a": k.name, "seq": clamp(seq), "good": good, "chain": chainID, "num": clamp(nm)}, tamper, chainID, absNum})
	}
	bodyB, err := proto.Marshal(body)
	must(err)
	authB, err := proto.Marshal(auth)
	must(err)
	// the same transaction in other bytes: a signature is for the bytes
	enc := num(op["enc"])
	canonB, canonA := bodyB, authB
	bodyB, authB = encodeBody(body, enc), encodeAuth(auth, enc)
	if bytes.Equal(canonB, bodyB) && bytes.Equal(canonA, authB) {
		for i := range sgs {
			if sgs[i].tamper == "canon" {
				sgs[i].abs["good"] = sgs[i].by == sgs[i].k
			}
		}
	}
	raw := &authnv1.TxRaw{BodyBytes: bodyB, AuthInfoBytes: authB}
	signers := []interface{}{}
	for _, s := range sgs {
		sb, sa := bodyB, authB
		switch s.tamper {
		case "canon":
			sb, sa = canonB, canonA
		case "body":
			other := proto.Clone(body).(*authnv1.TxBody)
			other.Memo += "x"
			sb, _ = proto.Marshal(other)
		case "auth":
			other := proto.Clone(auth).(*authnv1.AuthInfo)
			other.Fee.GasLimit++
			sa, _ = proto.Marshal(other)
		}
		sig, err := s.by.priv.Sign(signBytes(sb, sa, s.chain, s.num))
		must(err)
		switch s.tamper {
		case "sig":
			sig[11] ^= 4
		case "short":
			sig = sig[:63]
		case "empty":
			sig = nil
		case "long":
			sig = append(sig, 0)
		case "swap":
			sig = append(append([]byte{}, sig[32:]...), sig[:32]...)
		case "high": // the other signature which can be made from it without the key
			n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
			sig = append(append([]byte{}, sig[:32]...), n.Sub(n, new(big.Int).SetBytes(sig[32:])).FillBytes(make([]byte, 32))...)
		}
		raw.Signatures = append(raw.Signatures, sig)
		signers = append(signers, s.abs)
	}
	if len(sgs) == 0 {
		env = "nosigner"
	}
	b := encodeRaw(raw, enc)
	return b, M{"env": env, "signers": signers, "msgs": msgs, "fee": feeAbs, "payer": str(op["payer"]), "memo": memo,
		"tms": tmSet, "tmv": tmV}
}

// parts encodes the messages one after the other: together they are one message, with the
// fields which occur again added to a list, merged, or taking the place of the earlier ones
func parts(ms ...proto.Message) (b []byte) {
	for _, m := range ms {
		x, err := proto.Marshal(m)
		must(err)
		b = append(b, x...)
	}
	return b
}

func encodeBody(b *authnv1.TxBody, enc int64) []byte {
	rest := &authnv1.TxBody{Memo: b.Memo, TimeoutHeight: b.TimeoutHeight}
	msgs := &authnv1.TxBody{Messages: b.Messages}
	switch {
	case enc&2 != 0 && b.Memo != "" && b.TimeoutHeight != 0: // what is said again counts
		return parts(&authnv1.TxBody{Memo: strings.Repeat("overwritten", 200), TimeoutHeight: 1}, msgs, rest)
	case enc&1 != 0:
		return parts(rest, msgs)
	}
	return parts(b)
}

func encodeAuth(a *authnv1.AuthInfo, enc int64) []byte {
	fee := &authnv1.AuthInfo{Fee: a.Fee}
	infos := &authnv1.AuthInfo{SignerInfos: a.SignerInfos}
	switch {
	case enc&8 != 0 && a.Fee.Payer != "": // the fee in two parts
		return parts(&authnv1.AuthInfo{Fee: &authnv1.Fee{Payer: "nobody", Amount: a.Fee.Amount}}, infos,
			&authnv1.AuthInfo{Fee: &authnv1.Fee{Payer: a.Fee.Payer, GasLimit: a.Fee.GasLimit, Granter: a.Fee.Granter}})
	case enc&4 != 0:
		return parts(fee, infos)
	}
	return parts(a)
}

func encodeRaw(r *authnv1.TxRaw, enc int64) []byte {
	if enc&16 != 0 {
		return parts(&authnv1.TxRaw{Signatures: r.Signatures}, &authnv1.TxRaw{AuthInfoBytes: []byte("no")}, &authnv1.TxRaw{AuthInfoBytes: r.AuthInfoBytes}, &authnv1.TxRaw{BodyBytes: r.BodyBytes})
	}
	return parts(r)
}

// signBytes is the sign document of SIGN_MODE_DIRECT, written here from its protobuf
// definition and not with the code under test
func signBytes(body, auth []byte, chainID string, num uint64) []byte {
	var b []byte
	if len(body) != 0 {
		b = protowire.AppendBytes(protowire.AppendTag(b, 1, protowire.BytesType), body)
	}
	if len(auth) != 0 {
		b = protowire.AppendBytes(protowire.AppendTag(b, 2, protowire.BytesType), auth)
	}
	if chainID != "" {
		b = protowire.AppendString(protowire.AppendTag(b, 3, protowire.BytesType), chainID)
	}
	if num != 0 {
		b = protowire.AppendVarint(protowire.AppendTag(b, 4, protowire.VarintType), num)
	}
	return b
}

type light struct{ seq, num int64 }

func (c *chain) dumpLight() map[string]light {
	r := map[string]light{}
	for _, k := range allKeys {
		a := new(authnv1.Account)
		if c.get(meta.NewStringID(k.addr), a) {
			r[k.name] = light{c.relSeq(k.name, a.Sequence), rel(a.AccountNumber, c.cfg.NumBase)}
		}
	}
	return r
}

// ---------- running scripts ----------

type chainRun struct {
	c  *chain
	tr int
	re bool // checks are rechecks
}

func code(cd uint32, p string) interface{} {
	if p != "" {
		return -2
	}
	return int64(cd)
}

func checkType(re bool) abci.CheckTxType {
	if re {
		return abci.CheckTxType_Recheck
	}
	return abci.CheckTxType_New
}

// tx runs one transaction: an optional CheckTx and an optional DeliverTx
func (r *chainRun) tx(b []byte, abs M, chk, dlv bool) {
	c := r.c
	id, ok := c.ids[string(b)]
	if !ok {
		id = len(c.ids)
		c.ids[string(b)] = id
	}
	ln := M{"tr": r.tr, "op": "tx", "tx": abs, "id": id, "chk": -1, "chkdig": "", "code": -1, "log": true}
	if chk {
		var resp abci.ResponseCheckTx
		p := guarded(func() { resp = c.app.CheckTx(abci.RequestCheckTx{Tx: b, Type: checkType(r.re)}) })
		ln["chk"] = code(resp.Code, p)
		ln["chkdig"] = c.digest()
		if p != "" {
			ln["panic"] = p
		}
		ln["log"] = resp.Code == 0 || resp.Log != ""
		ln["chklog"] = resp.Log
	}
	if dlv {
		var resp abci.ResponseDeliverTx
		p := guarded(func() { resp = c.app.DeliverTx(abci.RequestDeliverTx{Tx: b}) })
		ln["code"] = code(resp.Code, p)
		if p != "" {
			ln["panic"] = p
		}
		if resp.Code != 0 && resp.Log == "" {
			ln["log"] = false
		}
		ln["dlog"] = resp.Log
		c.log = append(c.log, replayOp{kind: "tx", tx: b, res: fmt.Sprint(resp.Code, resp.Data, resp.GasUsed, resp.GasWanted, p)})
	}
	ln["post"] = c.dump()
	out.emit(ln)
}

func (c *chain) header(h uint64, op M) abci.RequestBeginBlock {
	x := uint64(num(op["var"])) // picks the content of what the application does not look at
	b := func(n string) []byte {
		if x%3 == 1 {
			return nil
		}
		return []byte(fmt.Sprintf("%s-%d", n, h+x))
	}
	req := abci.RequestBeginBlock{
		Hash: []byte(fmt.Sprintf("hash-%d", h)),
		Header: tmproto.Header{Height: int64(h), ChainID: c.cfg.Chain, ProposerAddress: []byte(fmt.Sprintf("prop-%d", h%3)),
			Time: time.Unix(int64(1000+h%1000), int64(x%5)*1001).UTC()},
		LastCommitInfo: abci.LastCommitInfo{Round: int32(num(op["round"]))},
	}
	if x%4 != 0 {
		req.Header.Version.Block, req.Header.Version.App = x, x*h
		req.Header.LastBlockId = tmproto.BlockID{Hash: b("last"), PartSetHeader: tmproto.PartSetHeader{Total: uint32(x), Hash: b("parts")}}
		req.Header.LastCommitHash, req.Header.DataHash, req.Header.ValidatorsHash = b("lastcommit"), b("data"), b("vals")
		req.Header.NextValidatorsHash, req.Header.ConsensusHash, req.Header.AppHash = b("nextvals"), b("cons"), b("app")
		req.Header.LastResultsHash, req.Header.EvidenceHash = b("results"), b("evidence")
	}
	switch x % 7 {
	case 1:
		req.Header.ProposerAddress = nil
	case 2:
		req.Header.Time = time.Unix(-5, 7).UTC()
	case 3:
		req.Header.Time = time.Unix(1<<35, 999999999).UTC()
	case 4:
		req.Hash = nil
	case 5:
		req.Header.ChainID = "another"
	}
	rng := rand.New(rand.NewSource(int64(x)))
	for i := int64(0); i < num(op["votes"]); i++ {
		req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, abci.VoteInfo{Validator: abci.Validator{Address: []byte{byte(i)}, Power: pick(rng, 0, 1, i, 1<<40, -1)}, SignedLastBlock: chance(rng, 50)})
	}
	for i := int64(0); i < num(op["byz"]); i++ {
		e := abci.Evidence{Height: int64(h) - pick[int64](rng, 0, 0, 1, 5, -1), Validator: abci.Validator{Address: []byte{byte(i)}, Power: pick[int64](rng, 0, 1, 10, 1<<40, -5)},
			Type: abci.EvidenceType(pick(rng, 0, 0, 1, 2, 3, 77)), TotalVotingPower: pick[int64](rng, 0, 1, 10, 5, 1<<50, -3)}
		if chance(rng, 30) {
			e.Validator.Address = nil
		}
		if chance(rng, 60) {
			e.Time = time.Unix(pick(rng, 0, 1, -1, int64(x), 1<<36), pick[int64](rng, 0, 1, 999999999)).UTC()
		}
		req.ByzantineValidators = append(req.ByzantineValidators, e)
	}
	return req
}

// apply runs an operation other than a transaction, and returns what is to be recorded about it
func (c *chain) apply(op M) (ln M, res string) {
	ln = M{"op": op["op"], "err": false}
	var err error
	switch kind := str(op["op"]); kind {
	case "begin":
		c.h = c.cfg.HBase + uint64(num(op["h"]))
		req := c.header(c.h, op)
		p := guarded(func() { c.app.BeginBlock(req) })
		ln["panic"] = p
		ln["h"] = rel(c.h, c.cfg.HBase)
		ln["bb"] = bbAbs(c.cfg, ownBegin(&req))
		res = p
	case "end":
		vu, abs := scriptVU(op["vu"])
		c.gen.vu, c.gen.set = vu, op["vu"] != nil
		var resp abci.ResponseEndBlock
		p := guarded(func() { resp = c.app.EndBlock(abci.RequestEndBlock{Height: int64(c.h)}) })
		got := []interface{}{}
		for _, v := range resp.ValidatorUpdates {
			k := string(v.PubKey.GetEd25519())
			if x := v.PubKey.GetSecp256K1(); x != nil {
				k = "secp:" + string(x)
			}
			got = append(got, []interface{}{k, clamp(v.Power)})
		}
		ln["panic"], ln["h"], ln["rec"], ln["set"], ln["got"] = p, rel(c.h, c.cfg.HBase), abs, op["vu"] != nil, got
		res = fmt.Sprint(p, got)
	case "commit":
		resp := c.app.Commit()
		res = hex.EncodeToString(resp.Data)
	case "valset":
		vu, abs := scriptVU(op["vu"])
		err = c.gen.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: vu})
		ln["rec"] = abs
	case "mint":
		coins, abs := c.scriptCoins(op["amt"])
		err = c.gen.c.Deliver(&bankv1.MsgSetBalance{Address: c.see(str(op["addr"])), Amount: coins})
		ln["addr"], ln["amt"] = str(op["addr"]), abs
	case "mkacc":
		msg, abs := c.scriptMsg(M{"t": "create", "addr": op["addr"], "pk": op["pk"]})
		err = c.gen.c.Deliver(msg)
		ln["addr"], ln["pk"] = str(op["addr"]), abs["pk"]
	case "unbind":
		err = c.rt.Delete(user.NewUsersFromString("rbac"), &rbacv1.RoleBinding{Subject: c.see(str(op["addr"]))})
		ln["addr"] = str(op["addr"])
	case "rebind":
		u := user.NewUsersFromString("rbac")
		rb := &rbacv1.RoleBinding{Subject: c.see(str(op["addr"])), RoleRef: str(op["role"])}
		err = c.rt.Update(u, rb)
		if errors.Is(err, errors.ErrNotFound) {
			err = c.rt.Create(u, rb)
		}
		ln["addr"], ln["role"] = str(op["addr"]), str(op["role"])
	default:
		panic("unknown op " + kind)
	}
	ln["err"] = err != nil
	return ln, res + fmt.Sprint(err != nil)
}

func runChain(tr int, ops []M) {
	cfg := new(chainCfg)
	b, _ := json.Marshal(ops[0])
	must(json.Unmarshal(b, cfg))
	c := newChain(cfg)
	defer c.close()
	c.initChain()
	r := &chainRun{c: c, tr: tr}
	_, gvu := scriptVU(cfg.GenVU)
	out.emit(M{"tr": tr, "op": "init", "post": c.dump(), "cfg": M{"chain": cfg.Chain, "vu": gvu}})
	var blocks []string
	flushBlock := func() string {
		var s []string
		for _, l := range c.log {
			s = append(s, l.kind+"="+l.res)
		}
		return strings.Join(s, ";")
	}
	for _, op := range ops[1:] {
		r.re = boolean(op["re"])
		switch kind := str(op["op"]); kind {
		case "tx":
			b, abs := c.buildTx(op)
			c.txs = append(c.txs, b)
			c.abs = append(c.abs, abs)
			r.tx(b, abs, op["chk"] == nil || boolean(op["chk"]), op["dlv"] == nil || boolean(op["dlv"]))
		case "resub":
			if len(c.txs) == 0 {
				continue
			}
			i := int(num(op["i"])) % len(c.txs)
			r.tx(c.txs[i], c.abs[i], op["chk"] == nil || boolean(op["chk"]), op["dlv"] == nil || boolean(op["dlv"]))
		case "fuzz":
			b, abs := c.fuzz(op)
			for i := range c.txs { // the bytes of a known transaction keep their meaning
				if bytes.Equal(b, c.txs[i]) {
					abs = c.abs[i]
				}
			}
			r.tx(b, abs, true, true)
		default:
			ln, res := c.apply(op)
			ln["tr"] = tr
			c.log = append(c.log, replayOp{kind: kind, op: op, res: res})
			ln["post"] = c.dump()
			out.emit(ln)
			if kind == "commit" {
				blocks = append(blocks, flushBlock()+"#"+c.digest())
			}
		}
	}
	blocks = append(blocks, flushBlock()+"#"+c.digest())
	// a node which lost its memory replays what reached the state machine, without the CheckTx calls
	replayed := c.replay()
	for i := range blocks {
		out.emit(M{"tr": tr, "op": "det", "a": blocks[i], "b": replayed[i], "blk": i})
	}
}

func (c *chain) replay() []string {
	d := newChain(c.cfg)
	defer d.close()
	d.initChain()
	var blocks, s []string
	for _, l := range c.log {
		res := ""
		switch l.kind {
		case "tx":
			var resp abci.ResponseDeliverTx
			p := guarded(func() { resp = d.app.DeliverTx(abci.RequestDeliverTx{Tx: l.tx}) })
			res = fmt.Sprint(resp.Code, resp.Data, resp.GasUsed, resp.GasWanted, p)
		default:
			_, res = d.apply(l.op)
		}
		s = append(s, l.kind+"="+res)
		if l.kind == "commit" {
			blocks = append(blocks, strings.Join(s, ";")+"#"+d.digest())
		}
	}
	return append(blocks, strings.Join(s, ";")+"#"+d.digest())
}

// fuzz derives arbitrary bytes; the abstraction says they are no acceptable transaction
func (c *chain) fuzz(op M) ([]byte, M) {
	rng := rand.New(rand.NewSource(num(op["seed"])))
	abs := M{"env": "fuzz", "signers": []interface{}{}, "msgs": []interface{}{}, "fee": M{"ok": true, "c": M{}}, "payer": "", "memo": 0, "tms": false, "tmv": 0}
	if len(c.txs) == 0 || num(op["mode"]) == 0 {
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		return b, abs
	}
	b := append([]byte{}, c.txs[rng.Intn(len(c.txs))]...)
	switch num(op["mode"]) {
	case 1: // flip bits inside: at least one signature no longer covers the bytes, or the sequence is spent
		for i := 0; i <= rng.Intn(4); i++ {
			if len(b) > 0 {
				b[rng.Intn(len(b))] ^= byte(1 << uint(rng.Intn(8)))
			}
		}
	case 2:
		b = b[:rng.Intn(len(b)+1)]
	case 3:
		i := rng.Intn(len(b) + 1)
		x := make([]byte, 1+rng.Intn(5))
		rng.Read(x)
		b = append(b[:i:i], append(x, b[i:]...)...)
	}
	return b, abs
}

// ---------- random scripts ----------

var denoms = []string{"stake", "atom"}

func genCoins(rng *rand.Rand, max int) []interface{} {
	r := []interface{}{}
	for _, i := range rng.Perm(len(denoms))[:1+rng.Intn(2)] {
		r = append(r, []interface{}{denoms[i], float64(rng.Intn(max + 1))})
	}
	return r
}

func genBadCoins(rng *rand.Rand) []interface{} {
	d := denoms[0]
	return pick(rng,
		[]interface{}{[]interface{}{d, float64(-1)}},
		[]interface{}{[]interface{}{d, "raw:"}},
		[]interface{}{[]interface{}{d, "raw:abc"}},
		[]interface{}{[]interface{}{d, "raw:+1"}},
		[]interface{}{[]interface{}{d, "raw:1" + strings.Repeat("0", 90)}},
		[]interface{}{[]interface{}{"ab", float64(1)}},
		[]interface{}{[]interface{}{d, float64(1)}, []interface{}{d, float64(2)}},
		[]interface{}{[]interface{}{d, "raw:--1"}},
		[]interface{}{[]interface{}{d, "raw:0x10"}},
		[]interface{}{[]interface{}{"1abc", "raw:-5"}},
		[]interface{}{[]interface{}{"stake,1atom", float64(1)}},
		[]interface{}{[]interface{}{d, "raw:1atom,1"}},
		[]interface{}{[]interface{}{d, "raw:1.5"}},
		[]interface{}{[]interface{}{denoms[1], float64(1)}, []interface{}{d, "raw:-1"}},
	)
}

func genCfg(rng *rand.Rand) M {
	keys := 2 + rng.Intn(4)
	gen := M{}
	nopk := []interface{}{}
	for i := 0; i < keys; i++ {
		if i > 1 && chance(rng, 25) {
			continue
		}
		n := allKeys[i].name
		switch {
		case i > 0 && chance(rng, 8):
			gen[n] = nil // an account without balance
		case i > 0 && chance(rng, 8):
			gen[n] = M{}
		default:
			gen[n] = M{"stake": float64(rng.Intn(40) + 5), "atom": float64(rng.Intn(20) + 1)}
		}
		if chance(rng, 25) {
			nopk = append(nopk, n)
		}
	}
	cfg := M{"keys": float64(keys), "genesis": gen, "nopk": nopk, "chain": pick(rng, "test", "test-chain-2", "x"),
		"scale":   float64(pick(rng, 0, 0, 0, 18, 30)),
		"seqBase": float64(pick(rng, 0, 0, 0, 126, 16382, 1<<40)),
		"hBase":   float64(pick(rng, 0, 0, 120, 1<<33)),
		"numBase": float64(pick(rng, 0, 0, 126, 1<<35)),
		"maxMemo": float64(pick(rng, 256, 256, 10, 0)),
		"maxSigs": float64(pick(rng, 7, 7, 7, 2, 2, 1)),
	}
	if chance(rng, 20) {
		cfg["genvu"] = genVU(rng)
	}
	order := []string{"authn", "rbac", "bank", "distribution", "tgen"}
	if chance(rng, 50) {
		rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		// genesis of tgen creates accounts and needs the role of external accounts
		for i, m := range order {
			if m == "tgen" {
				order = append(append(order[:i:i], order[i+1:]...), m)
				break
			}
		}
	}
	o := []interface{}{}
	for _, m := range order {
		o = append(o, m)
	}
	cfg["order"] = o
	cfg["roles"] = M{"minter": []interface{}{"setbal", "send"}, "creator": []interface{}{"create"},
		"roler": []interface{}{"mkrole", "bindrole", "send"}, "valset": []interface{}{"valset"}, "nothing": []interface{}{}}
	return cfg
}

func genName(rng *rand.Rand, keys int) string {
	switch x := rng.Intn(100); {
	case x < 60:
		return allKeys[rng.Intn(keys)].name
	case x < 80:
		return pick(rng, "n0", "n1", "n2", "n3")
	case x < 86:
		return "fee_collector"
	case x < 92:
		return pick(rng, "long127", "long128", "long129", "long200", "a/b", "a/b/c d")
	case x < 97:
		return pick(rng, "bank", "authn", "tgen", "distribution", "rbac")
	}
	return ""
}

func genMsg(rng *rand.Rand, keys int, from string) M {
	switch x := rng.Intn(100); {
	case x < 88:
		m := M{"t": "send", "from": from, "to": genName(rng, keys), "amt": genCoins(rng, pick(rng, 1, 2, 5))}
		if chance(rng, 4) {
			m["amt"] = genBadCoins(rng)
		}
		if chance(rng, 2) {
			m["amt"] = []interface{}{[]interface{}{"stake", "raw:1.75"}}
		}
		if chance(rng, 2) {
			m["amt"] = []interface{}{}
		}
		return m
	case x < 91:
		m := M{"t": "create", "addr": genName(rng, keys), "pk": pick(rng, "", "", "bogus", "k0"), "num": float64(rng.Intn(3)), "seq": float64(rng.Intn(3))}
		if chance(rng, 10) {
			m["nil"] = true
		}
		return m
	case x < 93:
		a := genName(rng, keys)
		if a == "" {
			a = "n0"
		}
		return M{"t": "setbal", "addr": a, "amt": []interface{}{[]interface{}{"atom", float64(1 + rng.Intn(9))}, []interface{}{"stake", float64(1 + rng.Intn(9))}}}
	case x < 95:
		m := M{"t": "mkrole", "id": pick(rng, "r1", "r2", "minter", "external_account", "")}
		if chance(rng, 10) {
			m["nil"] = true
		}
		return m
	case x < 97:
		a := pick(rng, "n0", "n1", "n4", "k0", "k1", "k5")
		return M{"t": "bindrole", "addr": a, "role": pick(rng, "minter", "external_account", "r1", "norole")}
	case x < 99:
		return M{"t": "valset", "vu": []interface{}{[]interface{}{"v1", float64(rng.Intn(3))}}}
	}
	return M{"t": "unknown", "addr": genName(rng, keys)}
}

// genSigned is a transaction with which all is well, except for one of its signatures
func genSigned(rng *rand.Rand, cfg M, have []int, h int) M {
	signers := []interface{}{}
	for _, i := range rng.Perm(len(have)) {
		if len(signers) == 0 || len(signers) < int(num(cfg["maxSigs"])) && chance(rng, 65) {
			signers = append(signers, M{"k": float64(have[i])})
		}
	}
	from := allKeys[num(signers[rng.Intn(len(signers))].(M)["k"])].name
	op := M{"op": "tx", "signers": signers, "fee": []interface{}{[]interface{}{"stake", float64(rng.Intn(2))}}, "memo": float64(0),
		"msgs": []interface{}{M{"t": "send", "from": from, "to": genName(rng, len(have)), "amt": []interface{}{[]interface{}{"stake", float64(1)}}}}}
	s := signers[rng.Intn(len(signers))].(M)
	switch rng.Intn(8) {
	case 0:
		s["off"] = float64(pick(rng, -1, 1, 256, 1<<32, -2))
	case 1:
		s["by"] = float64(rng.Intn(maxKeys))
	case 2:
		s["chain"] = pick(rng, "other", "test", "tes", "testx", "x")
	case 3:
		s["nochain"] = true
	case 4, 5:
		s["numabs"] = pick(rng, "0", "0", "0", "1", "2", "k0", "k1", "k2", "k3")
	case 6, 7:
		s["tamper"] = pick(rng, "body", "auth", "sig", "short", "empty", "long", "swap", "high", "canon")
	}
	genForm(rng, op, len(have))
	if chance(rng, 20) {
		op["chk"] = false
	}
	return op
}

// genForm says how the transaction is written down, and sets what must mean nothing
func genForm(rng *rand.Rand, op M, keys int) {
	if chance(rng, 25) {
		op["enc"] = float64(rng.Intn(32))
	}
	if chance(rng, 25) {
		op["mchr"] = pick(rng, " ", "\x00", "é", "世", "🙂", "\n", "m ")
	}
	if chance(rng, 10) {
		op["granter"] = genName(rng, keys)
	}
	if chance(rng, 15) {
		op["gas"] = pick(rng, "0", "1", "1000000", "9223372036854775808", "18446744073709551615")
	}
}

func genTx(rng *rand.Rand, cfg M, h int) M {
	keys := int(num(cfg["keys"]))
	var have []int
	for i := 0; i < keys; i++ {
		if _, ok := cfg["genesis"].(M)[allKeys[i].name]; ok {
			have = append(have, i)
		}
	}
	if chance(rng, 12) {
		return genSigned(rng, cfg, have, h)
	}
	k := have[rng.Intn(len(have))]
	if chance(rng, 8) {
		k = rng.Intn(keys)
	}
	signers := []interface{}{M{"k": float64(k)}}
	if chance(rng, 20) {
		for i := rng.Intn(3); i >= 0; i-- {
			x := have[rng.Intn(len(have))]
			if x != k || chance(rng, 5) {
				signers = append(signers, M{"k": float64(x)})
			}
		}
	}
	signer := func() string { return allKeys[num(signers[rng.Intn(len(signers))].(M)["k"])].name }
	msgs := []interface{}{}
	for i := pick(rng, 1, 1, 1, 2, 2, 3); i > 0; i-- {
		msgs = append(msgs, genMsg(rng, keys, signer()))
	}
	if chance(rng, 12) {
		// the same messages again, at once or after others
		for i := pick(rng, 1, 1, 2, 6, 12); i > 0; i-- {
			msgs = append(msgs, msgs[rng.Intn(len(msgs))])
		}
	}
	op := M{"op": "tx", "signers": signers, "msgs": msgs, "fee": []interface{}{[]interface{}{"stake", float64(rng.Intn(3))}}}
	if chance(rng, 20) {
		op["fee"] = genCoins(rng, 2)
	}
	maxMemo := num(cfg["maxMemo"])
	op["memo"] = float64(pick(rng, 0, 0, maxMemo, rng.Int63n(maxMemo+1)))
	if chance(rng, 30) {
		op["tm"] = float64(h + pick(rng, 0, 0, 1, 5))
	}
	if chance(rng, 15) {
		op["payer"] = signer()
	}
	genForm(rng, op, keys)
	if chance(rng, 20) {
		op["chk"] = false
	}
	if chance(rng, 30) {
		op["re"] = true
	}
	if chance(rng, 4) {
		op["dlv"] = false
	}
	// one or two things wrong
	if chance(rng, 35) {
		for i := pick(rng, 1, 1, 1, 2); i > 0; i-- {
			s := signers[rng.Intn(len(signers))].(M)
			switch rng.Intn(26) {
			case 25: // a message which cannot be admitted, perhaps after many which can
				for n := pick(rng, 0, 1, 7, 12) + rng.Intn(8); len(msgs) < n; {
					msgs = append(msgs, msgs[rng.Intn(len(msgs))])
				}
				op["msgs"] = append(msgs, pick(rng, M{"t": "send", "from": signer(), "to": pick(rng, genName(rng, keys), ""), "amt": genBadCoins(rng)}, M{"t": "create", "nil": true}, M{"t": "mkrole", "nil": true},
					M{"t": "create", "addr": "", "pk": ""}, M{"t": "mkrole", "id": ""}, M{"t": "mkrole", "id": "external_account"}, M{"t": "create", "addr": signer(), "pk": ""}, M{"t": "unknown", "addr": signer()}))
			case 21: // the signature is made for another chain or account than the one it is used for
				s["numabs"] = pick(rng, "0", "0", "1", "k0", "k1", "k2", "k3", "18446744073709551615", "4294967296")
				if chance(rng, 30) {
					s["nochain"] = true
				}
			case 22:
				s["nochain"] = true
			case 23:
				hb := uint64(num(cfg["hBase"]))
				op["tmabs"] = fmt.Sprint(pick(rng, 1, 2, uint64(h), 1<<31, 1<<32, 1<<32+uint64(h), hb+uint64(h)+1<<32, hb+uint64(h)-1<<32, 1<<63, 1<<63-1, 1<<64-1, hb+1<<31))
			case 24:
				s["off"] = float64(pick(rng, 1<<32, 1<<32, -(1 << 32), 1<<16, 256, 1<<31))
			case 0, 1:
				s["off"] = float64(pick(rng, -1, 1, -2, 2, 128, -3))
			case 2, 3:
				s["by"] = float64(rng.Intn(maxKeys))
			case 4:
				s["chain"] = pick(rng, "other", "test", "tes", "testx", "x")
			case 5:
				s["numoff"] = float64(pick(rng, -1, 1, 2))
			case 6, 7:
				s["tamper"] = pick(rng, "body", "auth", "sig", "short", "empty", "long", "swap", "high", "canon")
			case 8, 9:
				op["fee"] = []interface{}{[]interface{}{pick(rng, denoms...), float64(pick(rng, 20, 30, 1000, 9))}}
			case 10:
				op["fee"] = genBadCoins(rng)
			case 11:
				op["memo"] = float64(maxMemo + int64(pick(rng, 1, 1, 2, 50)))
			case 12:
				op["tm"] = float64(h - pick(rng, 1, 1, 2, 7))
			case 13:
				for j := pick(rng, 1, 2, 6); j > 0; j-- {
					signers = append(signers, M{"k": float64(have[rng.Intn(len(have))])})
				}
				op["signers"] = signers
			case 14, 15:
				if chance(rng, 25) { // after many which are in order
					for n := 7 + rng.Intn(8); len(msgs) < n; {
						msgs = append(msgs, msgs[rng.Intn(len(msgs))])
					}
				}
				op["msgs"] = append(msgs, M{"t": "send", "from": genName(rng, keys), "to": signer(), "amt": genCoins(rng, 3)})
			case 16:
				op["payer"] = genName(rng, keys)
			case 17:
				op["msgs"] = append(msgs, M{"t": "send", "from": signer(), "to": genName(rng, keys), "amt": []interface{}{[]interface{}{"stake", float64(100 + rng.Intn(1000))}}})
			case 18:
				op["msgs"] = append(msgs, genMsg(rng, keys, genName(rng, keys)))
			case 19:
				signers = append(signers, M{"k": float64(rng.Intn(maxKeys))})
				op["signers"] = signers
			case 20:
				switch rng.Intn(4) {
				case 0:
					op["msgs"] = []interface{}{}
				case 1:
					op["fee"] = []interface{}{}
				case 2:
					op["signers"] = []interface{}{}
				case 3:
					op["msgs"] = []interface{}{M{"t": "unknown", "addr": signer()}}
				}
			}
		}
	}
	return op
}

// genMixed is a transaction of signers with different roles: one of them may do what it wants
func genMixed(rng *rand.Rand, cfg M, k int, role string) M {
	keys := int(num(cfg["keys"]))
	signers := []interface{}{M{"k": float64(k)}}
	for _, i := range rng.Perm(keys) {
		if _, ok := cfg["genesis"].(M)[allKeys[i].name]; ok && i != k && len(signers) < int(num(cfg["maxSigs"])) && len(signers) < 4 {
			signers = append(signers, M{"k": float64(i)})
		}
	}
	rng.Shuffle(len(signers), func(i, j int) { signers[i], signers[j] = signers[j], signers[i] })
	var m M
	switch role {
	case "minter":
		m = M{"t": "setbal", "addr": pick(rng, "n0", "n1", "k0", "k1"), "amt": []interface{}{[]interface{}{"atom", float64(1 + rng.Intn(9))}}}
	case "creator":
		m = M{"t": "create", "addr": pick(rng, "n0", "n1", "n2", "n3"), "pk": ""}
	case "roler":
		m = M{"t": "mkrole", "id": pick(rng, "r1", "r2", "r3")}
	case "external_account", "nothing":
		m = M{"t": "send", "from": allKeys[k].name, "to": genName(rng, keys), "amt": []interface{}{[]interface{}{"stake", float64(1)}}}
	default:
		return nil
	}
	op := M{"op": "tx", "signers": signers, "msgs": []interface{}{m}, "fee": []interface{}{[]interface{}{"stake", float64(rng.Intn(2))}}, "memo": float64(0)}
	genForm(rng, op, keys)
	return op
}

// genCount is most often small
func genCount(rng *rand.Rand) int {
	switch rng.Intn(20) {
	case 0, 1:
		return rng.Intn(12)
	case 2:
		if chance(rng, 20) {
			return 100 + rng.Intn(100)
		}
	}
	return rng.Intn(3)
}

func genVU(rng *rand.Rand) []interface{} {
	r := []interface{}{}
	for i := genCount(rng); i >= 0; i-- {
		r = append(r, []interface{}{pick(rng, "", "", "secp:") + fmt.Sprintf("v%d", rng.Intn(pick(rng, 4, 200))), float64(pick(rng, rng.Intn(5), rng.Intn(5), 1<<29, 1<<34))})
	}
	return r
}

func genChainScript(rng *rand.Rand, n int) []M {
	cfg := genCfg(rng)
	ops := []M{cfg}
	keys := int(num(cfg["keys"]))
	if chance(rng, 20) {
		ops = append(ops, M{"op": "valset", "vu": genVU(rng)})
	}
	h := 1
	for len(ops) < n {
		ops = append(ops, M{"op": "begin", "h": float64(h), "votes": float64(genCount(rng)), "byz": float64(genCount(rng)), "var": float64(rng.Intn(200)), "round": float64(rng.Intn(3))})
		for i := rng.Intn(6); i >= 0; i-- {
			switch x := rng.Intn(100); {
			case x < 68:
				ops = append(ops, genTx(rng, cfg, h))
			case x < 80:
				o := M{"op": "resub", "i": float64(rng.Intn(50))}
				if chance(rng, 30) {
					o["chk"] = false
				}
				o["re"] = chance(rng, 40)
				ops = append(ops, o)
			case x < 86:
				ops = append(ops, M{"op": "fuzz", "seed": float64(rng.Intn(1 << 30)), "mode": float64(rng.Intn(4)), "re": chance(rng, 30)})
			case x < 90:
				a := genName(rng, keys)
				if a == "" || a == "fee_collector" {
					a = "n1"
				}
				ops = append(ops, M{"op": "mint", "addr": a, "amt": []interface{}{[]interface{}{"atom", float64(1 + rng.Intn(9))}, []interface{}{"stake", float64(3 + rng.Intn(9))}}})
			case x < 91:
				ops = append(ops, M{"op": "mkacc", "addr": pick(rng, genName(rng, keys), "k0", "k1", "n1"), "pk": pick(rng, "", "", "k1")})
			case x < 93:
				ops = append(ops, M{"op": "valset", "vu": genVU(rng)})
			case x < 99:
				k := rng.Intn(keys)
				role := pick(rng, "minter", "creator", "roler", "valset", "nothing", "external_account", "external_account", "external_account", "external_account", "external_account", pick(rng, "external_account", "norole"))
				ops = append(ops, M{"op": "rebind", "addr": allKeys[k].name, "role": role})
				if tx := genMixed(rng, cfg, k, role); tx != nil && chance(rng, 60) {
					ops = append(ops, tx)
				}
			default:
				ops = append(ops, M{"op": "unbind", "addr": allKeys[rng.Intn(keys)].name})
			}
		}
		e := M{"op": "end"}
		if chance(rng, 40) {
			e["vu"] = genVU(rng)
		}
		ops = append(ops, e)
		if chance(rng, 10) {
			ops = append(ops, M{"op": "valset", "vu": genVU(rng)})
		}
		if chance(rng, 10) { // the end of a block is reported again
			ops = append(ops, M{"op": "end"})
		}
		ops = append(ops, M{"op": "commit"})
		if h += pick(rng, 1, 1, 1, 2); chance(rng, 12) { // blocks are replayed, or the chain restarts elsewhere
			if h += pick(rng, -1, -2, -1000, 255, 300, 1<<16, 1<<20); h < 1 {
				h = 1
			}
		}
	}
	return ops
}

func chainFamily(rng *rand.Rand) {
	start := time.Now()
	tr := 0
	if *fScript != "" {
		for _, ops := range readScripts(*fScript) {
			tr++
			if *fOnly >= 0 && tr != *fOnly {
				continue
			}
			if time.Since(start) > *fBudget {
				return
			}
			runChain(tr, ops)
		}
		return
	}
	for i := 0; i < *fN; i++ {
		ops := genChainScript(rng, *fLen)
		tr++
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		if time.Since(start) > *fBudget {
			return
		}
		runChain(tr, ops)
	}
}
