//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"

	abciv1alpha1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	meta "github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/modulegen"
	rbacv1alpha1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	authnv1alpha1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1alpha1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisisv1alpha1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

// The family "typed" uses the generated clients - those of the modules of the repository, and
// those which the generator makes of random definitions (see maker) - on a real object store.

func init() { families["typed"] = runTyped }

type typedPkg struct {
	name    string
	new     func(client.Client) interface{}
	msgs    []proto.Message
	schemas map[string]*schema.Definition
}

// the definitions which come with the repository
var typedPkgs = []typedPkg{
	{"bank", func(c client.Client) interface{} { return bankv1alpha1.NewClientSet(c) },
		[]proto.Message{&bankv1alpha1.MsgSendCoins{}, &bankv1alpha1.MsgSetBalance{}, &bankv1alpha1.Balance{}}, map[string]*schema.Definition{"Balance": bankv1alpha1.BalanceSchema}},
	{"authn", func(c client.Client) interface{} { return authnv1alpha1.NewClientSet(c) },
		[]proto.Message{&authnv1alpha1.MsgCreateAccount{}, &authnv1alpha1.MsgUpdateAccount{}, &authnv1alpha1.MsgDeleteAccount{}, &authnv1alpha1.Account{}, &authnv1alpha1.CurrentAccountNumber{}, &authnv1alpha1.Params{}},
		map[string]*schema.Definition{"Account": authnv1alpha1.AccountSchema, "CurrentAccountNumber": authnv1alpha1.CurrentAccountNumberSchema, "Params": authnv1alpha1.ParamsSchema}},
	{"rbac", func(c client.Client) interface{} { return rbacv1alpha1.NewClientSet(c) },
		[]proto.Message{&rbacv1alpha1.MsgCreateRole{}, &rbacv1alpha1.MsgBindRole{}, &rbacv1alpha1.Params{}, &rbacv1alpha1.Role{}, &rbacv1alpha1.RoleBinding{}},
		map[string]*schema.Definition{"Params": rbacv1alpha1.ParamsSchema, "Role": rbacv1alpha1.RoleSchema, "RoleBinding": rbacv1alpha1.RoleBindingSchema}},
	{"runtime", func(c client.Client) interface{} { return runtimev1alpha1.NewClientSet(c) },
		[]proto.Message{&runtimev1alpha1.CreateModuleDescriptors{}, &runtimev1alpha1.ModuleDescriptors{}}, map[string]*schema.Definition{"ModuleDescriptors": runtimev1alpha1.ModuleDescriptorsSchema}},
	{"crisis", func(c client.Client) interface{} { return crisisv1alpha1.NewClientSet(c) },
		[]proto.Message{&crisisv1alpha1.InvariantHandler{}}, map[string]*schema.Definition{"InvariantHandler": crisisv1alpha1.InvariantHandlerSchema}},
	{"abci", func(c client.Client) interface{} { return abciv1alpha1.NewClientSet(c) },
		[]proto.Message{&abciv1alpha1.Stage{}, &abciv1alpha1.CurrentBlock{}, &abciv1alpha1.InitChainInfo{}, &abciv1alpha1.BeginBlockState{}, &abciv1alpha1.CheckTxState{}, &abciv1alpha1.DeliverTxState{}, &abciv1alpha1.EndBlockState{},
			&abciv1alpha1.ValidatorUpdates{}, &abciv1alpha1.MsgSetInitChain{}, &abciv1alpha1.MsgSetBeginBlockState{}, &abciv1alpha1.MsgSetCheckTxState{}, &abciv1alpha1.MsgSetDeliverTxState{}, &abciv1alpha1.MsgSetEndBlockState{},
			&abciv1alpha1.MsgSetValidatorUpdates{}},
		map[string]*schema.Definition{"Stage": abciv1alpha1.StageSchema, "CurrentBlock": abciv1alpha1.CurrentBlockSchema, "InitChainInfo": abciv1alpha1.InitChainInfoSchema, "BeginBlockState": abciv1alpha1.BeginBlockStateSchema,
			"CheckTxState": abciv1alpha1.CheckTxStateSchema, "DeliverTxState": abciv1alpha1.DeliverTxStateSchema, "EndBlockState": abciv1alpha1.EndBlockStateSchema, "ValidatorUpdates": abciv1alpha1.ValidatorUpdatesSchema}},
}

// typedObj is a state object (or a state transition) as its proto file declares it
type typedObj struct {
	name, goName string // in the proto file, in Go
	single       bool
	pk           string
	sks          []string
	proto        proto.Message
	md           protoreflect.MessageDescriptor
	sch          *schema.Definition
}

type typedEnv struct {
	tr       int
	rng      *rand.Rand
	okv, ikv *kv.Badger
	s        orm.Store
	pkg      typedPkg
	objs     map[string]*typedObj
	sts      map[string]*typedObj
	cs       reflect.Value
	keys     map[string]map[string]protoreflect.Value
	sent     []interface{} // what was delivered
	fails    bool
	at       []interface{} // the heights and ranges which were asked for
	optsRun  int
}

// ---- the client which the typed ones are made of ----

var errTold = errors.New("as told")

func (e *typedEnv) Get(id meta.ID, o meta.StateObject, opts ...client.GetOption) error {
	raw := new(client.GetOptionsRaw)
	for _, f := range opts {
		f(raw)
	}
	e.at = append(e.at, fmt.Sprint(raw.Height))
	if raw.Height != 0 {
		return errTold
	}
	return e.s.Get(id, o)
}

func (e *typedEnv) List(o meta.StateObject, opts ...client.ListOption) (client.ObjectIterator, error) {
	raw := new(client.ListOptionsRaw)
	for _, f := range opts {
		f(raw)
	}
	e.at = append(e.at, fmt.Sprint(raw.Height), fmt.Sprint(raw.ORMOptions.Start), fmt.Sprint(raw.ORMOptions.End))
	if raw.Height != 0 {
		return client.ObjectIterator{}, errTold
	}
	raw.ORMOptions.Start, raw.ORMOptions.End = 0, 0
	return e.s.List(o, raw.ORMOptions)
}

func (e *typedEnv) Create(o meta.StateObject, opts ...client.CreateOption) error {
	for _, f := range opts {
		f()
	}
	return e.s.Create(o)
}

func (e *typedEnv) Update(o meta.StateObject, opts ...client.UpdateOption) error {
	raw := new(client.UpdateOptionsRaw)
	for _, f := range opts {
		f(raw)
	}
	err := e.s.Update(o)
	if raw.CreateIfNotExists && errors.Is(err, orm.ErrNotFound) {
		return e.s.Create(o)
	}
	return err
}

func (e *typedEnv) Delete(o meta.StateObject, opts ...client.DeleteOption) error {
	for _, f := range opts {
		f()
	}
	return e.s.Delete(o)
}

func (e *typedEnv) Deliver(t meta.StateTransition, opts ...client.DeliverOption) error {
	for range opts {
		e.optsRun++
	}
	e.sent = append(e.sent, M{"t": string(t.ProtoReflect().Descriptor().Name()), "v": sum(t)})
	if e.fails {
		return errTold
	}
	return nil
}

// ---- projections ----

func sum(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "sbad"
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func fieldToken(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.StringKind:
		if v.String() == "" {
			return "s0"
		}
		if !utf8.ValidString(v.String()) {
			return "sbad"
		}
		return "s" + hex.EncodeToString([]byte(v.String()))
	case protoreflect.BytesKind:
		if len(v.Bytes()) == 0 {
			return "b0"
		}
		return "b" + hex.EncodeToString(v.Bytes())
	}
	return fmt.Sprintf("%v", v.Interface())
}

func (o *typedObj) project(m proto.Message) M {
	r := M{"_v": sum(m), "_t": string(m.ProtoReflect().Descriptor().Name())}
	for _, f := range append([]string{o.pk}, o.sks...) {
		if f == "" {
			continue
		}
		fd := o.md.Fields().ByJSONName(f)
		r[f] = fieldToken(fd, m.ProtoReflect().Get(fd))
	}
	return r
}

// describe reads the declaration of the proto file
func declared(m proto.Message) (o *typedObj, object, transition bool) {
	md := m.ProtoReflect().Descriptor()
	opts := md.Options().(*descriptorpb.MessageOptions)
	o = &typedObj{name: string(md.Name()), goName: reflect.TypeOf(m).Elem().Name(), proto: m, md: md}
	if d := proto.GetExtension(opts, modulegen.E_StateObject).(*modulegen.StateObjectDescriptor); d != nil {
		object = true
		o.single, o.pk, o.sks = d.Singleton, d.PrimaryKey, d.SecondaryKeys
	}
	transition = proto.GetExtension(opts, modulegen.E_StateTransition).(*modulegen.StateTransitionDescriptor) != nil
	return
}

func toL(l []string) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

// surface is what the generated code offers, as seen by a user of it
func (e *typedEnv) surface() M {
	ms := []interface{}{}
	for _, m := range e.pkg.msgs {
		o, object, _ := declared(m)
		x := M{"name": o.name, "go": o.goName, "ends": strings.HasSuffix(o.goName, "s"), "pkg": string(o.md.ParentFile().Package()), "object": object, "single": o.single, "pk": o.pk, "sks": toL(o.sks)}
		api := M{}
		x["panic"] = guarded(func() {
			a := m.(meta.APIObject).APIDefinition()
			api["group"], api["kind"], api["type"] = a.Group, a.Kind, a.ApiType.String()
			var fresh proto.Message
			switch y := m.(type) {
			case meta.StateObject:
				api["is"] = "object"
				fresh = y.NewStateObject()
			case meta.StateTransition:
				api["is"] = "transition"
				fresh = y.NewStateTransition()
			}
			full := proto.Clone(m)
			fill(full.ProtoReflect(), e.rng, 2)
			if f, ok := full.(meta.StateObject); ok {
				fresh = f.NewStateObject()
			}
			if f, ok := full.(meta.StateTransition); ok {
				fresh = f.NewStateTransition()
			}
			api["fresh"] = reflect.TypeOf(fresh) == reflect.TypeOf(m) && proto.Size(fresh) == 0
			api["alone"] = fresh != m && fresh != full
			if d := e.pkg.schemas[o.name]; object {
				api["sch"] = M{"single": d.Singleton, "pk": d.PrimaryKey, "sks": toL(d.SecondaryKeys)}
			}
		})
		x["api"] = api
		ms = append(ms, x)
	}
	methods := []string{}
	for i := 0; i < e.cs.Type().NumMethod(); i++ {
		methods = append(methods, e.cs.Type().Method(i).Name)
	}
	sort.Strings(methods)
	return M{"tr": e.tr, "op": "surface", "msgs": ms, "methods": toL(methods)}
}

// ---- random contents ----

var typedStrings = []string{"", "a", "b", "ab", "a/b", "unique", "é", "key with spaces", "\x00", strings.Repeat("long", 40), "\xff"}

func scalar(fd protoreflect.FieldDescriptor, rng *rand.Rand) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		if chance(rng, 3) {
			return protoreflect.ValueOfString(pick(rng, typedStrings...))
		}
		return protoreflect.ValueOfString(pick(rng, typedStrings[:len(typedStrings)-1]...))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(pick(rng, typedStrings...)))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(chance(rng, 50))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(rng.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(pick(rng, int32(0), 1, -1, 1<<31-1, -1<<31))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(pick(rng, int64(0), 1, -1, 1<<63-1, -1<<63))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(pick(rng, uint32(0), 1, 7, 1<<32-1))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(pick(rng, uint64(0), 1, 7, 1<<32, 1<<64-1))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(pick(rng, float32(0), 1.5))
	default:
		return protoreflect.ValueOfFloat64(pick(rng, float64(0), 1.5))
	}
}

func fill(m protoreflect.Message, rng *rand.Rand, depth int) {
	if a, ok := m.Interface().(*anypb.Any); ok {
		a.TypeUrl, a.Value = "/a.b", []byte{1}
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.IsMap() || chance(rng, 25) || fd.ContainingOneof() != nil && chance(rng, 50) {
			continue
		}
		isMsg := fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind
		if isMsg && depth == 0 {
			continue
		}
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			for n := rng.Intn(3); n > 0; n-- {
				if isMsg {
					x := l.NewElement()
					fill(x.Message(), rng, depth-1)
					l.Append(x)
				} else {
					v := scalar(fd, rng)
					if fd.Kind() == protoreflect.StringKind && !utf8.ValidString(v.String()) {
						continue
					}
					l.Append(v)
				}
			}
		case isMsg:
			fill(m.Mutable(fd).Message(), rng, depth-1)
		default:
			v := scalar(fd, rng)
			if depth < 2 && fd.Kind() == protoreflect.StringKind && !utf8.ValidString(v.String()) {
				continue
			}
			m.Set(fd, v)
		}
	}
}

func (e *typedEnv) random(o *typedObj) proto.Message {
	m := reflect.New(reflect.TypeOf(o.proto).Elem()).Interface().(proto.Message)
	fill(m.ProtoReflect(), e.rng, 2)
	// few values in the fields by which objects are found
	for _, f := range append([]string{o.pk}, o.sks...) {
		if f == "" {
			continue
		}
		fd := o.md.Fields().ByJSONName(f)
		switch fd.Kind() {
		case protoreflect.StringKind:
			if chance(e.rng, 90) {
				m.ProtoReflect().Set(fd, protoreflect.ValueOfString(pick(e.rng, "a", "b", "ab", "unique")))
			}
		case protoreflect.BytesKind:
			if chance(e.rng, 90) {
				m.ProtoReflect().Set(fd, protoreflect.ValueOfBytes([]byte(pick(e.rng, "a", "b", "\xff", "unique"))))
			}
		}
	}
	return m
}

// ---- running ----

func (e *typedEnv) keyOf(o *typedObj, v protoreflect.Value) meta.ID {
	if o.single {
		return meta.SingletonID
	}
	if o.md.Fields().ByJSONName(o.pk).Kind() == protoreflect.BytesKind {
		return meta.NewBytesID(v.Bytes())
	}
	return meta.NewStringID(v.String())
}

func (e *typedEnv) remember(o *typedObj, m proto.Message) {
	k, v := "unique", protoreflect.Value{}
	if !o.single {
		fd := o.md.Fields().ByJSONName(o.pk)
		v = m.ProtoReflect().Get(fd)
		if fd.Kind() == protoreflect.BytesKind {
			v = protoreflect.ValueOfBytes(append([]byte(nil), v.Bytes()...))
		}
		k = fieldToken(fd, v)
	}
	e.keys[o.name][k] = v
}

// read is the content of the store, not seen through the typed clients
func (e *typedEnv) read() M {
	r := M{}
	for n, o := range e.objs {
		m := M{}
		for k, v := range e.keys[n] {
			x := reflect.New(reflect.TypeOf(o.proto).Elem()).Interface().(meta.StateObject)
			if err := e.s.Get(e.keyOf(o, v), x); err == nil {
				m[k] = o.project(x)
			}
		}
		r[n] = m
	}
	return r
}

// stored is one of the objects which are there, or nil
func (e *typedEnv) stored(o *typedObj) proto.Message {
	ks := []string{}
	for k := range e.keys[o.name] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	e.rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
	for _, k := range ks {
		x := reflect.New(reflect.TypeOf(o.proto).Elem()).Interface().(meta.StateObject)
		if e.s.Get(e.keyOf(o, e.keys[o.name][k]), x) == nil {
			return x
		}
	}
	return nil
}

func (e *typedEnv) client(o *typedObj) reflect.Value {
	name := o.goName
	if !strings.HasSuffix(name, "s") && !o.single {
		name += "s"
	}
	m := e.cs.MethodByName(name)
	if !m.IsValid() {
		panic("no method " + name)
	}
	return m.Call(nil)[0]
}

func call(v reflect.Value, method string, args ...interface{}) []reflect.Value {
	m := v.MethodByName(method)
	if !m.IsValid() {
		panic("no method " + method)
	}
	in := []reflect.Value{}
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return m.Call(in)
}

func asErr(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func typedErr(err error) string {
	if errors.Is(err, errTold) {
		return "told"
	}
	return errClass(err)
}

func (e *typedEnv) mutate(op string, o *typedObj, m proto.Message, opts bool) {
	e.remember(o, m)
	L := M{"tr": e.tr, "op": op, "t": o.name, "o": o.project(m), "upsert": false, "ran": 0, "options": opts}
	var err error
	ran := 0
	L["panic"] = guarded(func() {
		args := []interface{}{m}
		if opts {
			switch op {
			case "create":
				args = append(args, client.CreateOption(func() { ran++ }), client.CreateOption(func() { ran++ }))
			case "delete":
				args = append(args, client.DeleteOption(func() { ran++ }), client.DeleteOption(func() { ran++ }))
			case "update":
				L["upsert"] = true
				args = append(args, client.UpdateCreateIfNotExists(), client.UpdateOption(func(*client.UpdateOptionsRaw) { ran += 2 }))
			}
		}
		err = asErr(call(e.client(o), map[string]string{"create": "Create", "update": "Update", "delete": "Delete"}[op], args...)[0])
	})
	L["err"], L["ran"] = typedErr(err), ran
	e.emit(L)
}

func (e *typedEnv) emit(L M) {
	if _, ok := L["height"]; ok {
		L["at"] = e.at
	}
	L["post"], L["dig"] = e.read(), digest(findDBs([]interface{}{e.okv, e.ikv}), nil)
	out.emit(L)
}

func (e *typedEnv) get(o *typedObj, v protoreflect.Value, height uint64) {
	e.at = []interface{}{}
	L := M{"tr": e.tr, "op": "get", "t": o.name, "k": "unique", "height": fmt.Sprint(height), "got": M{}, "nothing": true}
	args := []interface{}{}
	if !o.single {
		fd := o.md.Fields().ByJSONName(o.pk)
		L["k"] = fieldToken(fd, v)
		args = append(args, v.Interface())
	}
	if height != 0 {
		args = append(args, client.GetAtHeight(height))
	}
	L["panic"] = guarded(func() {
		r := call(e.client(o), "Get", args...)
		L["err"] = typedErr(asErr(r[1]))
		if L["nothing"] = r[0].IsNil(); !r[0].IsNil() {
			L["got"] = o.project(r[0].Interface().(proto.Message))
		}
	})
	e.emit(L)
}

func (e *typedEnv) list(o *typedObj, crit []interface{}, opts []client.ListOption, height uint64, rng [2]uint64) {
	e.at = []interface{}{}
	L := M{"tr": e.tr, "op": "list", "t": o.name, "crit": crit, "height": fmt.Sprint(height), "start": fmt.Sprint(rng[0]), "end": fmt.Sprint(rng[1]), "seen": []interface{}{}, "err": ""}
	args := []interface{}{}
	for _, x := range opts {
		args = append(args, x)
	}
	if height != 0 {
		args = append(args, client.ListAtHeight(height))
	}
	if rng[0] != 0 || rng[1] != 0 {
		args = append(args, client.ListRange(rng[0], rng[1]))
	}
	L["panic"] = guarded(func() {
		r := call(e.client(o), "List", args...)
		if L["err"] = typedErr(asErr(r[1])); L["err"] != "" {
			return
		}
		seen := []interface{}{}
		var kept []proto.Message
		for i := 0; call(r[0], "Valid")[0].Bool() && i < 1000; call(r[0], "Next") {
			x := call(r[0], "Get")
			if err := asErr(x[1]); err != nil {
				seen = append(seen, M{"gone": typedErr(err)})
			} else {
				m := x[0].Interface().(proto.Message)
				kept = append(kept, m)
				seen = append(seen, o.project(m))
			}
			i++
		}
		// each object is the caller's own
		for i, m := range kept {
			if len(kept) == len(seen) && !reflect.DeepEqual(o.project(m), seen[i]) {
				seen[i] = M{"gone": "changed"}
			}
		}
		L["seen"] = seen
	})
	e.emit(L)
}

func (e *typedEnv) exec(o *typedObj, m proto.Message, fails bool) {
	e.sent, e.fails = nil, fails
	L := M{"tr": e.tr, "op": "exec", "t": o.name, "v": sum(m), "fails": fails}
	L["panic"] = guarded(func() { L["err"] = typedErr(asErr(call(e.cs, "Exec"+o.goName, m)[0])) })
	if e.sent == nil {
		e.sent = []interface{}{}
	}
	L["sent"] = e.sent
	e.emit(L)
}

func newTyped(tr int, rng *rand.Rand, p typedPkg) *typedEnv {
	e := &typedEnv{tr: tr, rng: rng, pkg: p, objs: map[string]*typedObj{}, sts: map[string]*typedObj{}, keys: map[string]map[string]protoreflect.Value{}}
	e.okv, e.ikv, e.s = newStore()
	e.cs = reflect.ValueOf(p.new(e))
	ts := M{}
	for _, m := range p.msgs {
		o, object, _ := declared(m)
		if !object {
			e.sts[o.name] = o
			continue
		}
		o.sch = p.schemas[o.name]
		e.objs[o.name] = o
		e.keys[o.name] = map[string]protoreflect.Value{}
		ts[o.name] = M{"pk": o.pk, "single": o.single, "sks": toL(o.sks)}
		// registered as declared: what the generated schema says is compared by itself
		if err := e.s.RegisterObject(m.(meta.StateObject), &schema.Definition{Singleton: o.single, PrimaryKey: o.pk, SecondaryKeys: o.sks}); err != nil {
			panic(fmt.Sprint(p.name, " ", o.name, ": ", err))
		}
	}
	out.emit(M{"tr": tr, "op": "init", "pkg": p.name, "types": ts, "post": e.read(), "dig": digest(findDBs([]interface{}{e.okv, e.ikv}), nil)})
	out.emit(e.surface())
	return e
}

func numbers(rng *rand.Rand) uint64 {
	return pick(rng, uint64(1), 2, 7, 255, 1<<31, 1<<32, 1<<32+5, 1<<63, 1<<64-1)
}

func (e *typedEnv) randomStep() {
	rng := e.rng
	on, sn := []string{}, []string{}
	for n := range e.objs {
		on = append(on, n)
	}
	for n := range e.sts {
		sn = append(sn, n)
	}
	sort.Strings(on)
	sort.Strings(sn)
	if len(on) == 0 || len(sn) > 0 && chance(rng, 15) {
		o := e.sts[pick(rng, sn...)]
		e.exec(o, e.random(o), chance(rng, 30))
		return
	}
	o := e.objs[pick(rng, on...)]
	m := e.random(o)
	switch n := rng.Intn(100); {
	case n < 25:
		e.mutate("create", o, m, chance(rng, 30))
	case n < 50:
		e.mutate("update", o, m, chance(rng, 40))
	case n < 62:
		e.mutate("delete", o, m, chance(rng, 30))
	case n < 80 || o.single:
		e.remember(o, m)
		v := protoreflect.Value{}
		if !o.single {
			v = m.ProtoReflect().Get(o.md.Fields().ByJSONName(o.pk))
		}
		h := uint64(0)
		if chance(rng, 10) {
			h = numbers(rng)
		}
		e.get(o, v, h)
	default:
		crit, opts := []interface{}{}, []client.ListOption{}
		if x := e.stored(o); x != nil && chance(rng, 80) {
			m = x
		}
		for _, f := range o.sks {
			if !chance(rng, 60) && len(o.sks) > 1 {
				continue
			}
			fd := o.md.Fields().ByJSONName(f)
			v := m.ProtoReflect().Get(fd)
			if fieldToken(fd, v) == "sbad" {
				continue
			}
			crit = append(crit, M{"f": f, "v": fieldToken(fd, v), "mode": "i"})
			if fd.Kind() == protoreflect.StringKind && chance(rng, 50) {
				opts = append(opts, client.ListMatchFieldString(f, v.String()))
			} else {
				opts = append(opts, client.ListMatchFieldInterface(f, v.Interface()))
			}
		}
		var lim [2]uint64
		if chance(rng, 15) {
			lim = [2]uint64{numbers(rng), numbers(rng)}
		}
		h := uint64(0)
		if chance(rng, 10) {
			h = numbers(rng)
		}
		e.list(o, crit, opts, h, lim)
	}
}

// scripted does an operation of a script on the package p0
func (e *typedEnv) scripted(op M) {
	if op["op"] == "exec" {
		o := e.sts["S0"]
		m := e.random(o)
		m.ProtoReflect().Set(o.md.Fields().ByName("p"), protoreflect.ValueOfString(str(op["v"])))
		e.exec(o, m, op["fails"] == true)
		return
	}
	o := e.objs[str(op["t"])]
	x, _ := op["o"].(M)
	m := reflect.New(reflect.TypeOf(o.proto).Elem()).Interface().(proto.Message)
	for f, v := range x {
		if v == "sbad" {
			v = "\xff"
		}
		m.ProtoReflect().Set(o.md.Fields().ByName(protoreflect.Name(f)), protoreflect.ValueOfString(str(v)))
	}
	switch op["op"] {
	case "create", "update", "delete":
		e.mutate(str(op["op"]), o, m, op["upsert"] == true)
	case "get":
		e.get(o, protoreflect.ValueOfString(str(op["k"])), uint64(num(op["height"])))
	case "list":
		crit, opts := []interface{}{}, []client.ListOption{}
		for _, c := range list(op["crit"]) {
			y := c.(M)
			fd := o.md.Fields().ByName(protoreflect.Name(str(y["f"])))
			crit = append(crit, M{"f": y["f"], "v": fieldToken(fd, protoreflect.ValueOfString(str(y["v"]))), "mode": "i"})
			opts = append(opts, client.ListMatchFieldString(str(y["f"]), str(y["v"])))
		}
		e.list(o, crit, opts, uint64(num(op["height"])), [2]uint64{})
	}
}

func (e *typedEnv) close() { closeDBs(findDBs([]interface{}{e.okv, e.ikv})) }

func scriptedPkg() (p typedPkg) {
	for _, x := range typedPkgs {
		if x.name == "p0" {
			p = x
		}
	}
	return
}

func runTyped(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	// what the generator did
	if f, err := os.Open(os.Getenv("VERIF_MADE")); err == nil && scripts == nil && *fSeed%1000 == 0 {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for k := 1000001; sc.Scan(); k++ {
			L := M{}
			d := json.NewDecoder(bytes.NewReader(sc.Bytes()))
			if err := d.Decode(&L); err != nil {
				panic(err)
			}
			if L["tr"] = k; *fOnly < 0 || *fOnly == k {
				out.emit(L)
			}
		}
		f.Close()
	}
	for tr := 1; tr <= n; tr++ {
		seed := rng.Int63()
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		r := rand.New(rand.NewSource(seed))
		p := typedPkgs[(tr-1)%len(typedPkgs)]
		if scripts != nil {
			if p = scriptedPkg(); p.name == "" {
				continue // the code generated for it does not compile, which is recorded elsewhere
			}
		}
		e := newTyped(tr, r, p)
		if scripts != nil {
			for _, op := range scripts[tr-1] {
				e.scripted(op)
			}
		} else {
			for i := 0; i < *fLen; i++ {
				e.randomStep()
			}
		}
		e.close()
	}
}
