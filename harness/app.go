//go:build go1.23

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	meta "github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1alpha1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac/xt"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
)

// The family "app" composes applications out of made up modules, which do what the
// operations tell them and record every call, and possibly the real rbac module.

func init() { families["app"] = runApp }

const (
	msgCreateRole = "tmos.core.rbac.v1alpha1.MsgCreateRole"
	msgBindRole   = "tmos.core.rbac.v1alpha1.MsgBindRole"
	msgCreateDesc = "tmos.runtime.v1alpha1.CreateModuleDescriptors"
	msgInitChain  = "tmos.abci.v1alpha1.MsgSetInitChain"
)

// ---------- made up state transitions ----------

type dynST struct {
	*dynamicpb.Message
	def *meta.APIDefinition
}

func (d *dynST) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: d.def.Group, Kind: d.def.Kind, ApiType: d.def.ApiType}
}

func (d *dynST) NewStateTransition() meta.StateTransition {
	return &dynST{Message: dynamicpb.NewMessage(d.Message.Descriptor()), def: d.def}
}

type appEnv struct {
	tr     int
	rng    *rand.Rand
	c      M
	rt     *rt.Runtime
	app    rt.ABCIApplication
	events []interface{}
	sts    map[string]protoreflect.MessageDescriptor
	objs   map[string]*storeType
	files  M                                      // file -> what it imports
	fds    map[string]protoreflect.FileDescriptor // the same
	reg    *protoregistry.Files
	auth   bool
	dead   bool
	hasDB  bool
}

var appSerial int

// newFile makes a proto file; the names of the trace are made unique per process
func (e *appEnv) newFile(name string, imports []string, msgs ...*descriptorpb.DescriptorProto) protoreflect.FileDescriptor {
	f := &descriptorpb.FileDescriptorProto{Name: p(name), Package: p(strings.NewReplacer("/", "_", ".", "_").Replace("p" + name)), Syntax: p("proto3"), MessageType: msgs,
		Dependency: imports, Options: &descriptorpb.FileOptions{GoPackage: p("example.com/" + name)}}
	for i := range imports {
		// some imports are public, which changes nothing
		if h := fnvOf(name + imports[i]); h%3 == 0 {
			f.PublicDependency = append(f.PublicDependency, int32(i))
		}
	}
	if fnvOf(name)%4 == 0 {
		f.Syntax = p("proto2")
	}
	fd, err := protodesc.NewFile(f, e.reg)
	if err != nil {
		panic(err)
	}
	if err := e.reg.RegisterFile(fd); err != nil {
		panic(err)
	}
	l := []interface{}{}
	for _, i := range imports {
		l = append(l, i)
	}
	e.files[name] = l
	e.fds[name] = fd
	return fd
}

func fnvOf(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

// depName is the path of the i-th file of a graph with some salt
func depName(salt, i int) string {
	dirs := []string{"", "google/protobuf/", "google/api/", "tmos/x/", "gogoproto/", "cosmos/bank/v1beta1/", "../", "a/b/c/"}
	return fmt.Sprintf("%sf%d.proto", dirs[fnvOf(fmt.Sprint(salt, "/", i))%uint32(len(dirs))], i)
}

func strs(v interface{}) []string {
	r := []string{}
	for _, x := range list(v) {
		r = append(r, str(x))
	}
	return r
}

func split(name string) (group, kind string) {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '.' {
			return name[:i], name[i+1:]
		}
	}
	return "", name
}

// transition makes the state transition with the given message of the trace
func (e *appEnv) transition(m M) meta.StateTransition {
	name := str(m["st"])
	switch name {
	case msgCreateRole:
		msg := &rbacv1alpha1.MsgCreateRole{}
		if r, ok := m["role"].(M); ok {
			msg.NewRole = &rbacv1alpha1.Role{Id: str(r["id"]), Gets: strs(r["gets"]), Lists: strs(r["lists"]), Creates: strs(r["creates"]),
				Updates: strs(r["updates"]), Deletes: strs(r["deletes"]), Delivers: strs(r["delivers"])}
		}
		return msg
	case msgBindRole:
		return &rbacv1alpha1.MsgBindRole{RoleId: str(m["id"]), Subject: str(m["subject"])}
	case msgCreateDesc:
		return &runtimev1alpha1.CreateModuleDescriptors{}
	}
	d := e.emptyST(name)
	b, err := json.Marshal(mapOf(m["plan"]))
	if err != nil {
		panic(err)
	}
	d.Set(d.Descriptor().Fields().ByName("plan"), protoreflect.ValueOfString(string(b)))
	return d
}

func (e *appEnv) emptyST(name string) *dynST {
	md := e.sts[name]
	if md == nil {
		acl := ""
		acl = str(mapOf(e.c["acl"])[name])
		g, k := split(name)
		_ = g
		msg := &descriptorpb.DescriptorProto{Name: p(k), Field: []*descriptorpb.FieldDescriptorProto{
			{Name: p("plan"), Number: p(int32(1)), Type: p(descriptorpb.FieldDescriptorProto_TYPE_STRING), Label: p(descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)}}}
		if acl != "none" {
			msg.Options = &descriptorpb.MessageOptions{}
			proto.SetExtension(msg.Options, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: acl == "ext"})
		}
		var imports []string
		imports = strs(mapOf(e.c["imports"])[name])
		md = e.newFile("st/"+name+".proto", imports, msg).Messages().Get(0)
		e.sts[name] = md
	}
	g, k := split(name)
	return &dynST{Message: dynamicpb.NewMessage(md), def: &meta.APIDefinition{Group: g, Kind: k, ApiType: meta.APIType_StateTransition}}
}

// mapOf: an empty map may have been written as an empty list
func mapOf(v interface{}) M {
	if m, ok := v.(M); ok {
		return m
	}
	return M{}
}

// real transitions which made up modules can refer to
func (e *appEnv) ref(name string) meta.StateTransition {
	switch name {
	case msgCreateRole:
		return &rbacv1alpha1.MsgCreateRole{}
	case msgBindRole:
		return &rbacv1alpha1.MsgBindRole{}
	case msgCreateDesc:
		return &runtimev1alpha1.CreateModuleDescriptors{}
	}
	return e.emptyST(name)
}

func (e *appEnv) planOf(t meta.StateTransition) M {
	d, ok := t.(*dynST)
	if !ok {
		return M{}
	}
	r := M{}
	s := d.Get(d.Descriptor().Fields().ByName("plan")).String()
	if s != "" && s != "null" {
		if err := json.Unmarshal([]byte(s), &r); err != nil {
			panic(err)
		}
	}
	return r
}

// ---------- made up state objects ----------

func (e *appEnv) objType(name string) *storeType {
	if t := e.objs[name]; t != nil {
		return t
	}
	g, k := split(name)
	t := &storeType{name: name, def: &meta.APIDefinition{Group: g, Kind: k, ApiType: meta.APIType_StateObject},
		fields: []fieldSpec{{name: "id", json: "id", kind: "string", card: "one"}, {name: "v", json: "v", kind: "string", card: "one"}},
		sch:    &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"v"}}}
	md, err := forge("Obj", t.fields)
	if err != nil {
		panic(err)
	}
	t.md = md
	e.objs[name] = t
	return t
}

func (e *appEnv) object(name, id, v string) *dynObj {
	d := e.objType(name).empty()
	d.Set(d.Descriptor().Fields().ByName("id"), protoreflect.ValueOfString(id))
	d.Set(d.Descriptor().Fields().ByName("v"), protoreflect.ValueOfString(v))
	return d
}

func fieldOf(d *dynObj, f string) string {
	return d.Get(d.Descriptor().Fields().ByName(protoreflect.Name(f))).String()
}

// ---------- recording ----------

func appClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, rterr.ErrUnauthorized):
		return "unauthorized"
	case errors.Is(err, rterr.ErrBadRequest):
		return "badrequest"
	case errors.Is(err, rterr.ErrNotFound):
		return "notfound"
	case errors.Is(err, rterr.ErrAlreadyExists):
		return "exists"
	case errors.Is(err, rterr.ErrConditionNotMet):
		return "condition"
	}
	return "err"
}

func names(u user.Users) []interface{} {
	r := []string{}
	if u != nil {
		for _, x := range u.List() {
			r = append(r, x.GetName())
		}
	}
	sort.Strings(r)
	l := []interface{}{}
	for _, x := range r {
		l = append(l, x)
	}
	return l
}

func (e *appEnv) ev(k, h, st string, u []interface{}, r, v string) {
	if u == nil {
		u = []interface{}{}
	}
	e.events = append(e.events, M{"k": k, "h": h, "st": st, "u": u, "r": r, "v": v})
}

// acts does what handler h is told to, with the client of its module
func (e *appEnv) acts(c client.Client, h string, plan []interface{}) error {
	for _, x := range plan {
		a := x.(M)
		op, o, id, v := str(a["a"]), str(a["o"]), str(a["id"]), str(a["v"])
		var err error
		got, ids := "", []interface{}(nil)
		switch op {
		case "fail":
			switch str(a["how"]) {
			case "notfound":
				return fmt.Errorf("%w: as told", rterr.ErrNotFound)
			case "exists":
				return fmt.Errorf("%w: as told", rterr.ErrAlreadyExists)
			case "condition":
				return fmt.Errorf("%w: as told", rterr.ErrConditionNotMet)
			}
			return fmt.Errorf("as told")
		case "panic":
			switch len(h) % 4 {
			case 0:
				panic(fmt.Errorf("as told"))
			case 1:
				var none map[string]int
				none[h] = len(plan) // a runtime error
			case 2:
				panic(len(h))
			}
			panic("as told")
		case "create":
			err = c.Create(e.object(o, id, v))
		case "update":
			err = c.Update(e.object(o, id, v))
		case "upsert":
			err = c.Update(e.object(o, id, v), client.UpdateCreateIfNotExists())
		case "delete":
			err = c.Delete(e.object(o, id, v))
		case "get", "getat":
			d := e.objType(o).empty()
			opts := []client.GetOption{}
			if op == "getat" {
				opts = append(opts, client.GetAtHeight(uint64(num(a["at"]))))
			}
			err = c.Get(meta.NewStringID(id), d, opts...)
			if err == nil {
				got = fieldOf(d, "v")
			}
		case "listv", "listat":
			opts := []client.ListOption{client.ListMatchFieldString("v", v)}
			if op == "listat" {
				opts = append(opts, client.ListAtHeight(uint64(num(a["at"]))))
			}
			var it client.ObjectIterator
			it, err = c.List(e.objType(o).empty(), opts...)
			if err == nil {
				l := []string{}
				for ; it.Valid(); it.Next() {
					d := e.objType(o).empty()
					if err := it.Get(d); err != nil {
						panic(err)
					}
					l = append(l, fieldOf(d, "id"))
				}
				sort.Strings(l)
				for _, s := range l {
					ids = append(ids, s)
				}
			}
		case "deliver":
			opts := []client.DeliverOption{}
			if imp := strs(a["imp"]); len(imp) > 0 {
				opts = append(opts, client.DeliverImpersonating(imp...))
			}
			err = c.Deliver(e.transition(a["m"].(M)), opts...)
		default:
			panic("unknown action " + op)
		}
		switch op {
		case "create", "update", "upsert", "delete":
			got = o
		case "deliver":
			got = str(a["m"].(M)["st"])
		}
		e.ev("act", h, op, ids, appClass(err), got)
		if err != nil && !boolean(a["sw"]) {
			return err
		}
	}
	return nil
}

// ---------- made up modules ----------

type appModule struct {
	e *appEnv
	m M
}

type appGenesis struct {
	e *appEnv
	m M
	c client.Client
}

func (g appGenesis) Default() error {
	h := str(g.m["gen"].(M)["h"])
	g.e.ev("genesis", h, "", nil, "", "")
	return g.e.acts(g.c, h, list(g.m["gen"].(M)["acts"]))
}
func (g appGenesis) Import(state json.RawMessage) error {
	h := str(g.m["gen"].(M)["h"])
	g.e.ev("import", h, "", nil, "", string(state))
	return g.e.acts(g.c, h, list(g.m["gen"].(M)["acts"]))
}
func (g appGenesis) Export() (json.RawMessage, error) { return nil, nil }

type appSvc struct {
	e    *appEnv
	s    M
	c    client.Client
	stop bool
}

func (s *appSvc) Name() string              { return str(s.s["h"]) }
func (s *appSvc) SetClient(c client.Client) { s.c = c }
func (s *appSvc) Start() error {
	s.e.ev("start", str(s.s["h"]), "", nil, "", fmt.Sprint(s.c != nil))
	n := len(s.e.events)
	err := s.e.acts(s.c, str(s.s["h"]), list(s.s["acts"]))
	for _, x := range s.e.events[n:] { // which error services get does not matter
		if x := x.(M); x["k"] == "act" && x["h"] == s.s["h"] && x["r"] != "ok" {
			x["r"] = "err"
		}
	}
	return err
}
func (s *appSvc) Stop() error {
	s.e.ev("stop", str(s.s["h"]), "", nil, "", "")
	if boolean(s.s["failstop"]) {
		return fmt.Errorf("cannot stop")
	}
	return nil
}

type appAuthz struct{ e *appEnv }

func (a appAuthz) Authorize(at authorization.Attributes) (authorization.Decision, error) {
	a.e.ev("authz", "", meta.Name(at.Resource), names(at.Users), "", at.Verb.String())
	for _, x := range list(a.e.c["rules"]) {
		r := x.(M)
		if str(r["verb"]) == at.Verb.String() && str(r["res"]) == meta.Name(at.Resource) {
			switch str(r["how"]) {
			case "deny":
				return authorization.DecisionDeny, nil
			case "deny-err":
				return authorization.DecisionDeny, fmt.Errorf("denied")
			case "allow-err":
				return authorization.DecisionAllow, fmt.Errorf("error")
			case "other":
				return authorization.Decision(7), nil
			}
		}
	}
	return authorization.DecisionAllow, nil
}

type appAuthAdm struct {
	e *appEnv
	h string
	c client.Client
}

func (a appAuthAdm) Validate(tx authentication.Tx) error {
	a.e.ev("authadm", a.h, "", names(tx.Users()), "", "")
	return a.e.acts(a.c, a.h, list(mapOf(tx.Raw().(M)["plan"])[a.h]))
}

type appPostAuth struct {
	e *appEnv
	h string
	c client.Client
}

func (a appPostAuth) Exec(req authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	a.e.ev("postauth", a.h, "", names(req.Tx.Users()), "", "")
	return authentication.PostAuthenticationResponse{}, a.e.acts(a.c, a.h, list(mapOf(req.Tx.Raw().(M)["plan"])[a.h]))
}

func (a appModule) Initialize(c module.Client) module.Descriptor {
	e, m := a.e, a.m
	b := module.NewDescriptorBuilder().Named(str(m["name"]))
	for _, x := range list(m["objs"]) {
		o := x.(M)
		t := e.objType(str(o["n"]))
		def := t.sch
		if boolean(o["bad"]) {
			def = &schema.Definition{PrimaryKey: "nope"}
		}
		b.OwnsStateObject(t.empty(), def)
	}
	for _, x := range list(m["handles"]) {
		st, h := str(x.(M)["st"]), str(x.(M)["h"])
		b.HandlesStateTransition(e.ref(st), statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			e.ev("exec", h, meta.Name(req.Transition), names(req.Users), "", "")
			return statetransition.ExecutionResponse{}, e.acts(c, h, list(e.planOf(req.Transition)[h]))
		}))
	}
	for _, x := range list(m["adm"]) {
		st, h := str(x.(M)["st"]), str(x.(M)["h"])
		b.HandlesAdmission(e.ref(st), statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			e.ev("adm", h, meta.Name(req.Transition), names(req.Users), "", "")
			return e.acts(c, h, list(e.planOf(req.Transition)[h]))
		}))
	}
	for _, x := range list(m["post"]) {
		st, h := str(x.(M)["st"]), str(x.(M)["h"])
		b.WithPostStateTransitionHandler(e.ref(st), statetransition.PostExecutionHandlerFunc(func(req statetransition.PostExecutionRequest) error {
			e.ev("post", h, meta.Name(req.Transition), names(req.Users), "", "")
			return e.acts(c, h, list(e.planOf(req.Transition)[h]))
		}))
	}
	for _, x := range list(m["needs"]) {
		b.NeedsStateTransition(e.ref(str(x)))
	}
	for _, x := range list(m["authadm"]) {
		b.WithAuthAdmissionHandler(appAuthAdm{e, str(x), c})
	}
	for _, x := range list(m["postauth"]) {
		b.WithPostAuthenticationHandler(appPostAuth{e, str(x), c})
	}
	for _, x := range list(m["svcs"]) {
		b.WithExtensionService(&appSvc{e: e, s: x.(M)})
	}
	if boolean(m["authz"]) {
		b.IsAuthorizer(appAuthz{e})
	}
	if boolean(m["gen"].(M)["has"]) {
		b.WithGenesis(appGenesis{e, m, c})
	}
	d := b.Build()
	for _, x := range list(m["pre"]) {
		st, h := str(x.(M)["st"]), str(x.(M)["h"])
		addPre(&d, e.ref(st), statetransition.PreExecutionHandlerFunc(func(req statetransition.PreExecutionRequest) error {
			e.ev("pre", h, meta.Name(req.Transition), names(req.Users), "", "")
			return e.acts(c, h, list(e.planOf(req.Transition)[h]))
		}))
	}
	return d
}

// addPre adds a pre execution handler: the builder of descriptors has no method for it
// and the type of the list's elements is not exported
func addPre(d *module.Descriptor, st meta.StateTransition, h statetransition.PreExecutionHandler) {
	f := reflect.ValueOf(d).Elem().FieldByName("StateTransitionPreExecHandlers")
	x := reflect.New(f.Type().Elem()).Elem()
	x.FieldByName("StateTransition").Set(reflect.ValueOf(st))
	x.FieldByName("Handler").Set(reflect.ValueOf(h))
	f.Set(reflect.Append(f, x))
}

// ---------- transactions ----------

type appTx struct {
	e   *appEnv
	m   M
	sts []meta.StateTransition
	raw []byte
}

func (t *appTx) StateTransitions() []meta.StateTransition { return t.sts }
func (t *appTx) Users() user.Users                        { return user.NewUsersFromString(strs(t.m["users"])...) }
func (t *appTx) Fee() []*coin.Coin                        { return nil }
func (t *appTx) Payer() string                            { return "" }
func (t *appTx) Raw() interface{}                         { return t.m }
func (t *appTx) RawBytes() []byte                         { return t.raw }

type appDecoder struct{ e *appEnv }

func (d appDecoder) DecodeTx(b []byte) (authentication.Tx, error) {
	m := M{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	t := &appTx{e: d.e, m: m, raw: b}
	for _, x := range list(m["msgs"]) {
		t.sts = append(t.sts, d.e.transition(x.(M)))
	}
	return t, nil
}

// ---------- what is stored ----------

func (e *appEnv) hasRbac() bool {
	for _, x := range list(e.c["mods"]) {
		if boolean(x.(M)["real"]) {
			return true
		}
	}
	return false
}

func sorted(l []string) []interface{} {
	c := append([]string{}, l...)
	sort.Strings(c)
	r := []interface{}{}
	for _, x := range c {
		r = append(r, x)
	}
	return r
}

func (e *appEnv) post() M {
	r := M{"objs": M{}, "roles": M{}, "binds": M{}, "lists": M{}}
	for _, x := range list(e.c["mods"]) {
		for _, y := range list(x.(M)["objs"]) {
			n := str(y.(M)["n"])
			if !boolean(x.(M)["real"]) {
				r["lists"].(M)[n] = e.listings(n)
			}
			l := M{}
			for _, id := range appIDs {
				if id == "" {
					continue // no object can have it
				}
				d := e.objType(n).empty()
				if err := e.rt.Get(meta.NewStringID(id), d); err == nil {
					l[id] = fieldOf(d, "v")
					if fieldOf(d, "id") != id {
						l[id] = "an object with another ID"
					}
				} else if !errors.Is(err, rterr.ErrNotFound) {
					panic(err)
				}
			}
			r["objs"].(M)[n] = l
		}
	}
	if !e.hasRbac() {
		return r
	}
	subjects := append([]string{"external_account", "rbac", "m1", "m2", "new"}, appUsers...)
	roles := append([]string{"external_account", "rbac-role"}, appRoles...)
	for _, x := range list(e.c["mods"]) {
		subjects = append(subjects, str(x.(M)["name"]), "external_account")
		roles = append(roles, str(x.(M)["name"])+"-role", str(x.(M)["name"]))
	}
	for _, x := range []string{user.ABCI, user.Runtime} {
		subjects = append(subjects, x)
		roles = append(roles, x+"-role")
	}
	for _, id := range roles {
		if id == "" {
			continue
		}
		x := new(rbacv1alpha1.Role)
		if err := e.rt.Get(meta.NewStringID(id), x); err == nil {
			if x.Id != id {
				id = "another role at " + id
			}
			r["roles"].(M)[id] = M{"gets": sorted(x.Gets), "lists": sorted(x.Lists), "creates": sorted(x.Creates), "updates": sorted(x.Updates),
				"deletes": sorted(x.Deletes), "delivers": sorted(x.Delivers)}
		} else if !errors.Is(err, rterr.ErrNotFound) {
			panic(err)
		}
	}
	for _, id := range subjects {
		if id == "" {
			continue
		}
		x := new(rbacv1alpha1.RoleBinding)
		if err := e.rt.Get(meta.NewStringID(id), x); err == nil {
			if x.Subject != id {
				id = "another subject at " + id
			}
			r["binds"].(M)[id] = x.RoleRef
		} else if !errors.Is(err, rterr.ErrNotFound) {
			panic(err)
		}
	}
	return r
}

// listings is what can be listed of a type by the values of its objects; listing nothing is an error
func (e *appEnv) listings(n string) []interface{} {
	r := []interface{}{}
	for _, v := range appVals {
		l := []string{}
		it, err := e.rt.List(e.objType(n).empty(), orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "v", Value: v}}})
		if err == nil {
			for ; it.Valid(); it.Next() {
				d := e.objType(n).empty()
				if err := it.Get(d); err != nil {
					l = append(l, "unreadable")
					continue
				}
				l = append(l, fieldOf(d, "id"))
			}
		}
		r = append(r, M{"v": v, "ids": sorted(l)})
	}
	return r
}

// descriptors is what the runtime recorded of the modules
func (e *appEnv) descriptors() (mods []interface{}, protos []interface{}) {
	mods, protos = []interface{}{}, []interface{}{}
	x := new(runtimev1alpha1.ModuleDescriptors)
	if err := e.rt.Get(meta.SingletonID, x); err != nil {
		return
	}
	for _, m := range x.Modules {
		o, s, n := []interface{}{}, []interface{}{}, []interface{}{}
		for _, y := range m.StateObjects {
			o = append(o, y.ApiDefinition.Name())
		}
		for _, y := range m.StateTransitions {
			s = append(s, y.ApiDefinition.Name())
			if e.sts[y.ApiDefinition.Name()] != nil {
				fs := []interface{}{}
				for _, f := range y.ProtoDependencies {
					fs = append(fs, f.GetName())
				}
				protos = append(protos, M{"st": y.ApiDefinition.Name(), "files": fs, "name": y.ProtobufFullname == string(e.sts[y.ApiDefinition.Name()].FullName())})
			}
		}
		for _, y := range m.RequiredResources {
			n = append(n, y.Resource.Name())
		}
		mods = append(mods, M{"name": m.Name, "objs": o, "sts": s, "needs": n})
	}
	return
}

// ---------- operations ----------

func (e *appEnv) do(op M) {
	L := M{"tr": e.tr}
	for k, v := range op {
		L[k] = v
	}
	e.events = []interface{}{}
	kind := str(op["op"])
	if e.dead && kind != "deps" && kind != "services" && kind != "build" {
		return
	}
	L["panic"] = ""
	if kind == "tx" {
		L["check"], L["garbage"] = boolean(op["check"]), boolean(op["garbage"])
	}
	switch kind {
	case "build":
		e.build(L)
	case "genesis":
		var err error
		L["panic"] = guarded(func() {
			if boolean(op["abci"]) {
				e.app = rt.NewABCIApplication(e.rt)
				e.app.InitChain(types.RequestInitChain{ChainId: "test"})
			} else {
				err = e.rt.InitGenesis()
			}
		})
		if err != nil {
			L["panic"] = err.Error()
		}
		L["ok"] = err == nil && L["panic"] == ""
		e.app = rt.NewABCIApplication(e.rt)
		L["mods"], L["protos"] = e.descriptors()
		L["files"] = e.files
		L["post"] = e.post()
		if L["ok"] != true {
			e.dead = true
		}
	case "again":
		var err error
		L["panic"] = guarded(func() { err = e.rt.InitGenesis() })
		L["ok"] = err == nil
		L["post"] = e.post()
	case "import":
		// not followed by anything but further imports
		data, _ := json.Marshal(op["data"])
		raw := M{}
		for _, x := range list(e.c["mods"]) {
			n := str(x.(M)["name"])
			raw[n] = ""
			if v, ok := op["data"].(M)[n]; ok {
				b, _ := json.Marshal(v)
				raw[n] = string(b)
			}
		}
		L["raw"] = raw
		if boolean(op["bad"]) {
			data = data[:len(data)-1]
		}
		var err error
		L["panic"] = guarded(func() { err = e.rt.Import(data) })
		L["ok"] = err == nil && L["panic"] == ""
		L["post"] = e.post()
	case "toggle":
		if boolean(op["on"]) {
			e.rt.EnableAuthorization()
		} else {
			e.rt.DisableAuthorization()
		}
		L["post"] = e.post()
	case "tx":
		b, err := json.Marshal(M{"users": op["users"], "msgs": op["msgs"], "plan": op["plan"]})
		if err != nil {
			panic(err)
		}
		if boolean(op["garbage"]) {
			b = b[1:]
		}
		var code uint32
		var logText string
		L["panic"] = guarded(func() {
			if boolean(op["check"]) {
				r := e.app.CheckTx(types.RequestCheckTx{Tx: b})
				code, logText = r.Code, r.Log
			} else {
				r := e.app.DeliverTx(types.RequestDeliverTx{Tx: b})
				code, logText = r.Code, r.Log
			}
		})
		L["code"] = clamp(int64(code))
		L["logged"] = logText != ""
		L["post"] = e.post()
	case "call":
		var err error
		u := user.NewUsersFromString(strs(op["users"])...)
		L["panic"] = guarded(func() {
			t := e.transition(op["m"].(M))
			if boolean(op["skip"]) {
				err = e.rt.Deliver(u, t, rt.DeliverSkipAdmissionHandlers())
			} else {
				err = e.rt.Deliver(u, t)
			}
		})
		L["r"] = appClass(err)
		L["post"] = e.post()
	case "services":
		g := rt.NewServiceOrchestrator()
		svcs := []module.ExtensionService{}
		for _, x := range list(op["svcs"]) {
			svcs = append(svcs, &appSvc{e: e, s: x.(M)})
		}
		okv, ikv, s := newStore()
		k := int(num(op["cut"]))
		g.AddServices("m1", svcs[:k]...)
		g.AddServices("m2", svcs[k:]...)
		var err, err2 error
		L["panic"] = guarded(func() { err = g.Start(s) })
		L["started"] = e.events
		e.events = []interface{}{}
		pn := guarded(func() { err2 = g.Stop() })
		if pn != "" {
			L["panic"] = pn
		}
		L["stopped"] = e.events
		e.events = []interface{}{}
		L["ok"], L["stopok"] = err == nil, err2 == nil
		closeDBs(findDBs([]interface{}{okv, ikv}))
	case "deps":
		fs := list(op["graph"])
		salt := int(fnvOf(fmt.Sprint(fs)))
		de := &appEnv{files: M{}, fds: map[string]protoreflect.FileDescriptor{}, reg: new(protoregistry.Files)}
		var last protoreflect.FileDescriptor
		for i, x := range fs {
			imps := []string{}
			for _, y := range list(x) {
				imps = append(imps, depName(salt, int(num(y))))
			}
			last = de.newFile(depName(salt, i+1), imps)
		}
		var got []protoreflect.FileDescriptor
		L["panic"] = guarded(func() { got = desc.Dependencies(last) })
		l := []interface{}{}
		for _, f := range got {
			var n int
			fmt.Sscanf(f.Path()[strings.LastIndex(f.Path(), "/")+1:], "f%d.proto", &n)
			l = append(l, n)
		}
		L["got"] = l
	default:
		panic("unknown operation " + kind)
	}
	L["ev"] = e.events
	out.emit(L)
}

func (e *appEnv) build(L M) {
	e.close()
	e.dead = false
	e.c = L["c"].(M)
	e.sts, e.objs = map[string]protoreflect.MessageDescriptor{}, map[string]*storeType{}
	e.files, e.fds, e.reg = M{}, map[string]protoreflect.FileDescriptor{}, new(protoregistry.Files)
	for _, x := range list(e.c["files"]) {
		// with messages named like the state transitions, which everybody may deliver
		msgs := []*descriptorpb.DescriptorProto{}
		for _, st := range appSTs {
			_, k := split(st)
			if k != "T2" {
				m := &descriptorpb.DescriptorProto{Name: p(k), Options: &descriptorpb.MessageOptions{}}
				proto.SetExtension(m.Options, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: true})
				if len(msgs) == 0 || msgs[len(msgs)-1].GetName() != k && msgs[0].GetName() != k {
					msgs = append(msgs, m)
				}
			}
		}
		e.newFile(str(x.(M)["n"]), strs(x.(M)["i"]), msgs...)
	}
	var r *rt.Runtime
	var err error
	var b *rt.Builder
	L["panic"] = guarded(func() {
		b = rt.NewBuilder()
		for _, x := range list(e.c["mods"]) {
			m := x.(M)
			if boolean(m["real"]) {
				b.AddModule(rbac.NewModule())
			} else {
				b.AddModule(appModule{e, m})
			}
		}
		if boolean(e.c["decoder"]) {
			b.SetDecoder(appDecoder{e})
		}
		r, err = b.Build()
	})
	L["ok"] = err == nil && L["panic"] == ""
	if L["ok"] != true {
		e.dead = true
		if b != nil {
			closeDBs(findDBs(b))
		}
		return
	}
	e.rt = r
	e.app = rt.NewABCIApplication(r)
	L["post"] = e.post()
}

func (e *appEnv) close() {
	if e.rt != nil {
		closeDBs(findDBs(e.rt))
	}
	e.rt = nil
}

func runApp(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	for tr := 1; tr <= n; tr++ {
		seed := rng.Int63()
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		e := &appEnv{tr: tr, rng: rand.New(rand.NewSource(seed))}
		if scripts != nil {
			for _, op := range scripts[tr-1] {
				e.do(op)
			}
		} else {
			e.random()
		}
		e.close()
	}
}

// ---------- random applications ----------

var (
	appSTs  = []string{"a.T1", "b.T1", "a.T2", "c.d.T3", "c.T4"}
	appObjs = []string{"a.O1", "b.O1", "a.O2", "c.d.O3"}
	appIDs  = []string{"x", "y", "z/z", ""}
	appVals = []string{"", "1", "2"}
	// users and roles of the random applications
	appUsers = []string{"u1", "u2", "u3", "ghost", "new", ""}
	appRoles = []string{"r1", "r2", "r3", "r4", "nope", ""}
)

func (e *appEnv) randomComp(wrong int) M {
	r := e.rng
	nMods := 1 + r.Intn(4)
	withRbac := chance(r, 60)
	mods := []interface{}{}
	nh := 0
	hid := func(p string) string { nh++; return fmt.Sprintf("%s%d", p, nh) }
	syn := []M{}
	for i := 0; i < nMods; i++ {
		m := M{"name": fmt.Sprintf("m%d", i+1), "real": false, "objs": []interface{}{}, "handles": []interface{}{}, "adm": []interface{}{}, "pre": []interface{}{},
			"post": []interface{}{}, "needs": []interface{}{}, "authadm": []interface{}{}, "postauth": []interface{}{}, "svcs": []interface{}{}, "authz": false,
			"gen": M{"has": false, "h": "", "acts": []interface{}{}}}
		syn = append(syn, m)
		mods = append(mods, m)
	}
	at := -1
	if withRbac {
		at = r.Intn(nMods + 1)
		real := M{"name": "rbac", "real": true, "objs": []interface{}{}, "handles": []interface{}{}, "adm": []interface{}{}, "pre": []interface{}{},
			"post": []interface{}{}, "needs": []interface{}{}, "authadm": []interface{}{}, "postauth": []interface{}{}, "svcs": []interface{}{}, "authz": false,
			"gen": M{"has": false, "h": "", "acts": []interface{}{}}}
		mods = append(mods[:at], append([]interface{}{real}, mods[at:]...)...)
	}
	add := func(m M, k string, x interface{}) { m[k] = append(list(m[k]), x) }
	acl, imports := M{}, M{}
	files := []interface{}{}
	fnames := []string{}
	for i := r.Intn(6); i > 0; i-- {
		n := fmt.Sprintf("dep%d.proto", len(fnames)+1)
		l := []interface{}{}
		for _, f := range shuffled(r, fnames) {
			if chance(r, 45) {
				l = append(l, f)
			}
		}
		files = append(files, M{"n": n, "i": l})
		fnames = append(fnames, n)
	}
	handled := []string{}
	for _, st := range appSTs {
		acl[st] = pick(r, "ext", "ext", "int")
		if chance(r, 1) {
			acl[st] = "none"
		}
		l := []interface{}{}
		for _, f := range shuffled(r, fnames) {
			if chance(r, 45) {
				l = append(l, f)
			}
		}
		imports[st] = l
		if chance(r, 80) {
			add(pick(r, syn...), "handles", M{"st": st, "h": hid("x")})
			handled = append(handled, st)
		}
	}
	for _, o := range appObjs {
		if chance(r, 80) {
			add(pick(r, syn...), "objs", M{"n": o, "bad": false})
		}
	}
	hooks := append([]string{}, handled...)
	hooks = append(hooks, handled...)
	hooks = append(hooks, msgCreateDesc)
	if withRbac {
		hooks = append(hooks, msgCreateRole, msgBindRole)
	}
	for _, k := range []string{"adm", "pre", "post"} {
		for i := r.Intn(7); i > 0; i-- {
			add(pick(r, syn...), k, M{"st": pick(r, hooks...), "h": hid(k)})
		}
	}
	if chance(r, 10) {
		add(pick(r, syn...), "adm", M{"st": pick(r, appSTs...), "h": hid("adm")})
	}
	for _, m := range syn {
		for _, st := range shuffled(r, append(append([]string{}, handled...), hooks[len(hooks)-1])) {
			own := false
			for _, x := range list(m["handles"]) {
				own = own || x.(M)["st"] == st
			}
			for _, x := range list(m["needs"]) {
				own = own || x == st
			}
			if !own && chance(r, 40) {
				add(m, "needs", st)
			}
		}
		for _, k := range []string{"authadm", "postauth"} {
			for i := r.Intn(3); i > 0; i-- {
				add(m, k, hid(k))
			}
		}
	}
	c := M{"mods": mods, "acl": acl, "imports": imports, "files": files, "decoder": !chance(r, 7), "rules": []interface{}{}}
	for _, m := range syn {
		for i := r.Intn(3); i > 0 && chance(r, 40); i-- {
			h := hid("s")
			add(m, "svcs", M{"h": h, "acts": e.randomActs(c, 2, "svc", 3), "failstop": false})
		}
		if chance(r, 60) {
			m["gen"] = M{"has": true, "h": hid("g"), "acts": []interface{}{}}
			m["gen"].(M)["acts"] = e.randomActs(c, 3, "gen", 2)
		}
	}
	if !withRbac && chance(r, 70) {
		pick(r, syn...)["authz"] = true
		rules := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			rules = append(rules, M{"verb": pick(r, "Create", "Update", "Delete", "Deliver", "Deliver"), "res": pick(r, append(append([]string{}, appSTs...), appObjs...)...),
				"how": pick(r, "deny", "deny-err", "allow-err", "other")})
		}
		c["rules"] = rules
	}
	// something wrong
	if chance(r, wrong) {
		m := pick(r, syn...)
		switch r.Intn(8) {
		case 0:
			m["name"] = ""
		case 1:
			add(m, "handles", M{"st": pick(r, appSTs...), "h": hid("x")})
		case 2:
			add(m, "objs", M{"n": pick(r, appObjs...), "bad": false})
		case 3:
			add(m, "objs", M{"n": "bad.O", "bad": true})
		case 4:
			add(m, "pre", M{"st": pick(r, append([]string{msgBindRole}, appSTs...)...), "h": hid("pre")})
		case 5:
			add(m, "post", M{"st": pick(r, append([]string{msgBindRole}, appSTs...)...), "h": hid("post")})
		case 6:
			s := pick(r, append([]string{msgBindRole}, appSTs...)...)
			ok := true
			for _, x := range list(m["handles"]) {
				ok = ok && x.(M)["st"] != s
			}
			for _, x := range list(m["needs"]) {
				ok = ok && x != s
			}
			if ok {
				add(m, "needs", s)
			}
		case 7:
			m["authz"] = true
		}
	}
	return c
}

func shuffled(r *rand.Rand, l []string) []string {
	c := append([]string{}, l...)
	r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	return c
}

// randomActs makes up to n actions; kind: adm (reads only), svc, gen, tx
func (e *appEnv) randomActs(c M, n int, kind string, failing int) []interface{} {
	return e.actsAt(c, n, kind, failing, 0)
}

func (e *appEnv) actsAt(c M, n int, kind string, failing, depth int) []interface{} {
	r := e.rng
	l := []interface{}{}
	objs := []string{}
	for _, m := range list(c["mods"]) {
		for _, o := range list(m.(M)["objs"]) {
			if !boolean(o.(M)["bad"]) {
				objs = append(objs, str(o.(M)["n"]))
			}
		}
	}
	for i := r.Intn(n + 1); i > 0; i-- {
		if chance(r, failing) {
			if chance(r, 25) && kind != "svc" && kind != "gen" {
				l = append(l, M{"a": "panic"})
			} else {
				l = append(l, M{"a": "fail", "how": pick(r, "", "notfound", "exists", "condition")})
			}
			continue
		}
		ops := []string{"create", "create", "create", "update", "upsert", "upsert", "delete", "get", "listv", "getat", "listat", "deliver", "deliver", "deliver"}
		if kind == "adm" {
			ops = []string{"get", "listv", "get", "getat", "listat"}
		}
		if kind == "svc" {
			ops = []string{"get", "listv", "create", "update", "delete", "upsert", "deliver"}
		}
		op := pick(r, ops...)
		a := M{"a": op, "sw": true}
		if op == "deliver" {
			if depth > 1 {
				continue
			}
			a["m"] = e.randomMsg(c, depth+1)
			imp := []interface{}{}
			for k := r.Intn(3); k > 0; k-- {
				imp = append(imp, pick(r, "u1", "u2", "m1", "m2", "rbac", "ghost"))
			}
			if chance(r, 60) {
				imp = []interface{}{}
			}
			a["imp"] = imp
		} else {
			if len(objs) == 0 {
				continue
			}
			a["o"], a["id"], a["v"] = pick(r, objs...), pick(r, appIDs...), pick(r, appVals...)
			if op == "getat" || op == "listat" {
				a["at"] = pick(r, 0, 1, 1, 7)
			}
		}
		unswallowed := 12
		if kind == "gen" || kind == "svc" {
			unswallowed = 3
		}
		if chance(r, unswallowed) && op != "listv" && op != "listat" {
			a["sw"] = false
		}
		l = append(l, a)
	}
	return l
}

func (e *appEnv) randomMsg(c M, depth int) M {
	r := e.rng
	rb := false
	for _, m := range list(c["mods"]) {
		rb = rb || boolean(m.(M)["real"])
	}
	if rb && chance(r, 15) {
		if chance(r, 50) {
			return e.randomRole(c, 40)
		}
		return M{"st": msgBindRole, "id": pick(r, "r1", "r2", "r3", "external_account", "m1-role", "rbac-role", "nope", ""), "subject": pick(r, "u1", "u2", "u3", "m1", "", "new")}
	}
	st := pick(r, appSTs...)
	if chance(r, 3) {
		st = "no.Such"
	}
	plan := M{}
	for _, m := range list(c["mods"]) {
		for _, k := range []string{"adm", "pre", "handles", "post"} {
			for _, x := range list(m.(M)[k]) {
				if x.(M)["st"] == st && chance(r, 55) {
					kind, n := "tx", 3
					if k == "adm" {
						kind, n = "adm", 1
					}
					if a := e.actsAt(c, n, kind, 5, depth); len(a) > 0 {
						plan[str(x.(M)["h"])] = a
					}
				}
			}
		}
	}
	return M{"st": st, "plan": plan}
}

func (e *appEnv) randomRole(c M, share int) M {
	r := e.rng
	if chance(r, 6) {
		return M{"st": msgCreateRole}
	}
	some := func(l []string, odd string) []interface{} {
		x := []interface{}{}
		for _, s := range shuffled(r, l) {
			if chance(r, share) {
				x = append(x, s)
			}
		}
		if chance(r, 3) {
			x = append(x, odd)
		}
		return x
	}
	known := []string{msgCreateRole, msgBindRole}
	objs := []string{"tmos.core.rbac.v1alpha1.Role"}
	for _, m := range list(c["mods"]) {
		for _, h := range list(m.(M)["handles"]) {
			known = append(known, str(h.(M)["st"]))
		}
		for _, o := range list(m.(M)["objs"]) {
			objs = append(objs, str(o.(M)["n"]))
		}
	}
	few := func() []interface{} {
		if chance(r, 60) {
			return []interface{}{}
		}
		return some(objs, pick(r, "no.Such", "a.T1", "", "O1"))
	}
	if chance(r, 3) {
		return M{"st": msgCreateRole}
	}
	return M{"st": msgCreateRole, "role": M{"id": pick(r, "r1", "r2", "r3", "r4", "", "external_account", "m1-role"), "gets": few(), "lists": few(), "creates": few(), "updates": few(),
		"deletes": few(), "delivers": some(known, pick(r, "no.Such", "a.O1", "", "T1"))}}
}

func (e *appEnv) random() {
	r := e.rng
	if chance(r, 10) {
		// imports of genesis states
		c := e.randomComp(0)
		for chance(r, 90) && e.compHasRbac(c) {
			c = e.randomComp(0)
		}
		if !e.compHasRbac(c) {
			e.do(M{"op": "build", "c": c})
			for i := 0; i < 3; i++ {
				data := M{}
				for _, n := range []string{"m1", "m2", "m3", "m4", "system:abci", "other"} {
					if chance(r, 60) {
						data[n] = pick[interface{}](r, "s-"+n, 7, M{"n": n}, []interface{}{n})
					}
				}
				e.do(M{"op": "import", "data": data, "bad": chance(r, 10)})
			}
			return
		}
	}
	for i := 0; i < 2; i++ {
		g := []interface{}{}
		n := 1 + r.Intn(9)
		for k := 1; k <= n; k++ {
			l := []interface{}{}
			for _, d := range r.Perm(k - 1) {
				if chance(r, 40) {
					l = append(l, d+1)
				}
			}
			g = append(g, l)
		}
		e.do(M{"op": "deps", "graph": g})
	}
	e.c = M{"mods": []interface{}{}}
	e.objs = map[string]*storeType{}
	svcs := []interface{}{}
	for i := 0; i < r.Intn(5); i++ {
		acts := []interface{}{}
		if chance(r, 15) {
			acts = append(acts, M{"a": "fail", "how": ""})
		}
		svcs = append(svcs, M{"h": fmt.Sprintf("s%d", i), "acts": acts, "failstop": chance(r, 25)})
	}
	e.do(M{"op": "services", "svcs": svcs, "cut": r.Intn(len(svcs) + 1)})
	for i := 0; i < 2; i++ {
		e.do(M{"op": "build", "c": e.randomComp(75)})
	}
	c := e.randomComp(4)
	e.do(M{"op": "build", "c": c})
	if chance(r, 12) {
		// what is asked before genesis
		plain := !e.compHasRbac(c) // nobody is asked
		for _, x := range list(c["mods"]) {
			plain = plain && !boolean(x.(M)["authz"])
		}
		for i := r.Intn(3); i >= 0; i-- {
			switch m := e.randomMsg(c, 0); {
			case plain && chance(r, 20):
				e.do(M{"op": "toggle", "on": true})
			case e.compHasRbac(c) && chance(r, 60):
				if m = e.randomRole(c, 30); chance(r, 50) {
					m = M{"st": msgBindRole, "id": pick(r, "r1", "r2", "external_account", ""), "subject": pick(r, "u1", "m1", "m2", "external_account", "rbac")}
				}
				fallthrough
			default:
				e.do(M{"op": "call", "users": e.randomUsers(c), "m": m, "skip": chance(r, 30)})
			}
		}
	}
	e.do(M{"op": "genesis", "abci": !chance(r, 20)})
	rb := e.compHasRbac(c)
	if rb {
		for i, u := range []string{"u1", "u2"} {
			if chance(r, 15) {
				continue
			}
			role := e.randomRole(c, 80)
			id := "external_account"
			if x, ok := role["role"].(M); ok && chance(r, 70) {
				id = fmt.Sprintf("r%d", i+1)
				x["id"] = id
			}
			e.do(M{"op": "tx", "users": []interface{}{"rbac"}, "msgs": []interface{}{role}, "plan": M{}})
			e.do(M{"op": "tx", "users": []interface{}{"rbac"}, "msgs": []interface{}{M{"st": msgBindRole, "id": id, "subject": u}}, "plan": M{}})
		}
	}
	for i := 0; i < *fLen && !e.dead; i++ {
		switch x := r.Intn(100); {
		case x < 3:
			e.do(M{"op": "again"})
		case x < 6:
			e.do(M{"op": "toggle", "on": chance(r, 60)})
		case x < 20:
			e.do(M{"op": "call", "users": e.randomUsers(c), "m": e.randomMsg(c, 0), "skip": chance(r, 30)})
		default:
			msgs := []interface{}{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				msgs = append(msgs, e.randomMsg(c, 0))
			}
			if chance(r, 4) {
				for k := r.Intn(12); k > 0; k-- {
					m := e.randomMsg(c, 0)
					if chance(r, 80) {
						m["plan"] = M{}
					}
					msgs = append(msgs, m)
				}
			}
			if chance(r, 3) {
				msgs = []interface{}{}
			}
			plan := M{}
			for _, m := range list(c["mods"]) {
				for _, h := range list(m.(M)["authadm"]) {
					if chance(r, 20) {
						plan[str(h)] = e.randomActs(c, 1, "adm", 15)
					}
				}
				for _, h := range list(m.(M)["postauth"]) {
					if chance(r, 40) {
						plan[str(h)] = e.randomActs(c, 2, "tx", 8)
					}
				}
			}
			tx := M{"op": "tx", "users": e.randomUsers(c), "msgs": msgs, "plan": plan, "check": chance(r, 15), "garbage": chance(r, 2)}
			if boolean(tx["check"]) && chance(r, 10) { // a handler fails while the transaction is only checked
				for _, m := range list(c["mods"]) {
					for _, h := range list(m.(M)["authadm"]) {
						plan[str(h)] = e.randomActs(c, 1, "adm", 60)
					}
				}
			}
			e.do(tx)
		}
	}
}

func (e *appEnv) compHasRbac(c M) bool {
	for _, x := range list(c["mods"]) {
		if boolean(x.(M)["real"]) {
			return true
		}
	}
	return false
}

func (e *appEnv) randomUsers(c M) []interface{} {
	r := e.rng
	l := []interface{}{pick(r, "u1", "u2", "u1", "u2", "u1", "u2", "u1", "u2", "m1", "m2", "rbac", "rbac", "u3", "system:abci")}
	for chance(r, 25) {
		l = append(l, pick(r, "u1", "u2", "m1", "ghost", "rbac"))
	}
	if chance(r, 2) {
		l = []interface{}{}
	}
	return l
}
