//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/reflect/protoregistry"

	"github.com/fdymylja/tmos/core/apiserver/router"
	meta "github.com/fdymylja/tmos/core/meta"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
)

func init() {
	families["query"] = runQuery
}

// queryEnv is a store with the two ways to ask it from outside
type queryEnv struct {
	storeEnv
	q   *runtime.Querier
	api http.Handler
}

// names with what paths are made of in them, and which start with each other
var queryNames = [][2]string{{"g", "t"}, {"g.V1", "Ta"}, {"g", "tab"}, {"ga", "t"}, {"g.t", "a"}, {"h", "Status"}}

// how an object is asked for in the path of a URL
func segment(s string) string {
	if s == "." || s == ".." {
		return strings.ReplaceAll(s, ".", "%2E")
	}
	return url.PathEscape(s)
}

func (t *storeType) paths() (object, list string) {
	base := "/" + strings.ToLower(t.def.Group) + "/" + strings.ToLower(t.def.Kind)
	return base, base + "s"
}

func (t *storeType) documented() []interface{} {
	o, l := t.paths()
	if t.sch.Singleton {
		return []interface{}{o}
	}
	return []interface{}{o + "/{" + t.sch.PrimaryKey + "}", l}
}

// fromJSON reads an object of the type back
func (t *storeType) fromJSON(b []byte) M {
	o := t.empty()
	if err := protojson.Unmarshal(b, o); err != nil {
		return M{"unreadable": string(b)}
	}
	return t.project(o)
}

func (e *queryEnv) build(how string) (err error, pn string) {
	pn = guarded(func() {
		b := router.NewBuilder(client.NewORMClient(e.s, "api"))
		d := module.NewDescriptorBuilder().Named("m")
		for _, t := range e.types {
			if !e.reg[t.name] {
				continue
			}
			if how == "module" {
				d = d.OwnsStateObject(t.empty(), t.sch)
			} else if err = b.CreateStateObjectHandler(t.empty(), t.sch); err != nil {
				return
			}
		}
		if how == "module" {
			if err = b.CreateModuleHandlers(d.Build()); err != nil {
				return
			}
		}
		m, err2 := b.Build()
		if err = err2; err == nil {
			e.api = m
		}
	})
	return
}

var specPath = regexp.MustCompile(`(?m)^ +["']?(/[^"'\n]*?)["']?:\s*$`)

func (e *queryEnv) ask(op M) {
	L := M{"tr": e.tr, "op": op["op"], "how": op["how"], "t": "", "got": M{}, "seen": []interface{}{}}
	for k, v := range op {
		L[k] = v
	}
	var t *storeType
	if str(op["t"]) != "" {
		t = e.typ(str(op["t"]))
	}
	switch op["op"] {
	case "query":
		path := ""
		switch how := str(op["how"]); how {
		case "get":
			id := str(op["k"])
			if id != "?" {
				id = string(e.idOf(t, id).Bytes())
			}
			path = "get/" + t.def.Group + "/" + t.def.Kind + "/" + id
		case "resources":
			path = "api_resources" + str(op["rest"])
		default:
			path = str(op["path"])
			if t != nil {
				path = strings.NewReplacer("{g}", t.def.Group, "{k}", t.def.Kind, "{id}", string(e.idOf(t, str(op["k"])).Bytes())).Replace(path)
			}
			delete(L, "path") // arbitrary bytes
		}
		var r types.ResponseQuery
		L["panic"] = guarded(func() {
			r = e.q.Handle(types.RequestQuery{Path: path, Height: int64(num(op["height"]))})
		})
		L["code"], L["size"] = r.Code, len(r.Value)
		if r.Code == 0 && op["how"] == "get" {
			L["got"] = t.fromJSON(r.Value)
		}
		if r.Code == 0 && op["how"] == "resources" {
			res := new(runtimev1alpha1.Resources)
			if err := protojson.Unmarshal(r.Value, res); err != nil {
				L["got"] = M{"unreadable": string(r.Value)}
			}
			names := []interface{}{}
			for _, g := range res.ApiGroupResources {
				for _, k := range g.StateObjects {
					names = append(names, g.ApiGroup+"|"+k)
				}
			}
			L["seen"] = names
		}
	case "http":
		path := ""
		v := url.Values{}
		switch op["how"] {
		case "object":
			base, _ := t.paths()
			k := ""
			switch tok := str(op["k"]); {
			case t.sch.Singleton:
				k = "unique"
			case tok == "?":
				bs := badStrings[t.field(t.sch.PrimaryKey).kind]
				if k = bs[int(num(op["n"]))%len(bs)]; k == "" {
					k = "x"
				}
			default:
				k = lookup(t.field(t.sch.PrimaryKey).kind, tok).str
			}
			path = base + "/" + segment(k)
		case "single":
			path, _ = t.paths()
		case "list":
			_, path = t.paths()
			for _, c := range list(op["crit"]) {
				x := c.(M)
				field, mode := str(x["f"]), str(x["mode"])
				f := t.field(field)
				kind := "string"
				if f != nil {
					kind = t.kindOf(f)
				}
				switch {
				case mode == "noeq":
					v.Add("selectField", field)
				case mode == "bs":
					bs := badStrings[kind]
					v.Add("selectField", field+"="+bs[int(num(x["n"]))%len(bs)])
				case f == nil || kind == "msg" || kind == "list":
					v.Add("selectField", field+"=a")
				default:
					v.Add("selectField", field+"="+lookup(kind, str(x["v"])).str)
				}
			}
		case "spec":
			path = "/spec"
		default:
			path = str(op["path"])
		}
		if l := str(op["limits"]); l != "" {
			kv := strings.SplitN(l, "=", 2)
			v.Set(kv[0], kv[1])
		}
		u := "http://api.local" + path
		if len(v) > 0 {
			u += "?" + v.Encode()
		}
		rec := httptest.NewRecorder()
		L["panic"] = guarded(func() {
			req := httptest.NewRequest(str(op["method"]), u, nil)
			if h := str(op["height"]); h != "" {
				req.Header.Set("X-Starport-Framework-Height", h)
			}
			e.api.ServeHTTP(rec, req)
		})
		b := rec.Body.Bytes()
		L["code"] = rec.Code
		if rec.Code == 200 {
			switch op["how"] {
			case "object", "single":
				L["got"] = t.fromJSON(b)
			case "list":
				var l struct{ List []json.RawMessage }
				if err := json.Unmarshal(b, &l); err != nil {
					L["seen"] = []interface{}{M{"unreadable": string(b)}}
					break
				}
				seen := []interface{}{}
				for _, x := range l.List {
					seen = append(seen, t.fromJSON(x))
				}
				L["seen"] = seen
			case "spec":
				seen := []string{}
				for _, m := range specPath.FindAllStringSubmatch(string(b), -1) {
					seen = append(seen, m[1])
				}
				sort.Strings(seen)
				s := []interface{}{}
				for _, x := range seen {
					s = append(s, x)
				}
				L["seen"] = s
			}
		}
	}
	L["post"], L["dig"] = e.read(e.s), e.dig()
	out.emit(L)
}

func (e *queryEnv) do(op M) {
	switch op["op"] {
	case "build":
		err, pn := e.build(str(op["how"]))
		L := M{"tr": e.tr, "op": "build", "t": "", "how": op["how"], "panic": pn, "err": errClass(err), "post": e.read(e.s), "dig": e.dig()}
		out.emit(L)
	case "query", "http":
		e.ask(op)
	case "remote":
		e.remote(op)
	default:
		e.storeEnv.do(op)
	}
}

// stored is a key of the type, mostly of an object which exists
func (e *queryEnv) stored(t *storeType) string {
	ks := t.keys()
	if objs, ok := e.read(e.s)[t.name].(M); ok && len(objs) > 0 && chance(e.rng, 75) {
		ks = sortedKeys(objs)
	}
	return pick(e.rng, ks...)
}

func (e *queryEnv) randomAsk() M {
	rng := e.rng
	t := pick(rng, e.types...)
	if chance(rng, 45) {
		t = e.types[0]
	}
	if chance(rng, 20) {
		return e.randomRemote(t)
	}
	if e.api == nil || chance(rng, 40) {
		h := pick(rng, 0, 0, 0, 1, 7, -1)
		switch n := rng.Intn(100); {
		case n < 60:
			k := e.stored(t)
			if t.sch.Singleton && chance(rng, 20) {
				k = "?" // no such object
			}
			return M{"op": "query", "how": "get", "t": t.name, "k": k, "height": h}
		case n < 75:
			return M{"op": "query", "how": "resources", "height": h, "rest": pick(rng, "", "", "/", "/g")}
		default:
			k := e.stored(t)
			return M{"op": "query", "how": "wrong", "t": t.name, "k": k, "height": h, "path": pick(rng, "", "/", "get", "get/", "get/{g}", "get/{g}/{k}", "get/{g}/{k}/", "{g}/{k}/{id}", "GET/{g}/{k}/{id}",
				"get//{k}/{id}", "get/{g}//{id}", "get/{k}/{g}/{id}", "get/{g}/{k}s/{id}", "get/{g}x/{k}/{id}", "/get/{g}/{k}/{id}", "get/nope/{k}/{id}", "get /{g}/{k}/{id}", "\xff\x00", "delete/{g}/{k}/{id}")}
		}
	}
	op := M{"op": "http", "t": t.name, "method": "GET", "height": "", "limits": ""}
	if chance(rng, 5) {
		op["method"] = pick(rng, "POST", "PUT", "DELETE", "HEAD", "PATCH")
	}
	if chance(rng, 6) {
		op["height"] = pick(rng, "0", "x", "-1", "1.5", "00", "18446744073709551616")
	}
	switch n := rng.Intn(100); {
	case n < 45:
		op["how"], op["k"], op["n"] = "object", e.stored(t), 0
		if t.sch.Singleton {
			op["how"] = pick(rng, "single", "single", "single", "object")
		} else if k := t.field(t.sch.PrimaryKey).kind; chance(rng, 7) && len(badStrings[k]) > 0 {
			op["k"], op["n"] = "?", rng.Intn(9)
		} else if chance(rng, 5) {
			op["how"], op["k"] = "single", "unique"
		}
	case n < 90:
		op["how"] = "list"
		if t.sch.Singleton && !chance(rng, 10) {
			t = e.types[0]
			op["t"] = t.name
		}
		crit := []interface{}{}
		for _, c := range e.randomCrit(t, pick(rng, 0, 1, 1, 1, 2, 2, 3)) {
			x := c.(M)
			k := "string"
			if f := t.field(str(x["f"])); f != nil {
				k = t.kindOf(f)
			}
			switch {
			case chance(rng, 3):
				x["mode"] = "noeq"
			case x["mode"] == "bt" && len(badStrings[k]) > 0:
				x["mode"] = "bs"
			case x["mode"] != "bs":
				x["mode"] = "s"
			}
			crit = append(crit, x)
		}
		op["crit"] = crit
		if chance(rng, 10) {
			op["limits"] = pick(rng, "start=", "end=", "start=x", "end=x", "start=-1", "end=-1", "end=1.5", "start=18446744073709551616", "end=", "start=0", "end=100")
		}
	case n < 95:
		op["how"], op["t"] = "spec", ""
	default:
		op["how"], op["t"], op["path"] = "nowhere", "", pick(rng, "/", "/nope", "/g", "/g/nope", "/g/nope/1", "/g/nopes", "/nope/t/1", "/spec/x", "/h")
	}
	return op
}

func runQuery(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	for tr := 1; tr <= n; tr++ {
		seed := rng.Int63()
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		e := &queryEnv{storeEnv: storeEnv{tr: tr, rng: rand.New(rand.NewSource(seed)), reg: map[string]bool{}, ids: map[string]meta.ID{}, names: queryNames, rec: true}}
		e.okv, e.ikv, e.s = newStore()
		e.makeTypes(scripts != nil)
		ts := M{}
		for _, t := range e.types {
			if err := protoregistry.GlobalFiles.RegisterFile(t.md.ParentFile()); err != nil {
				panic(err)
			}
			d := t.describe()
			d["paths"], d["id"] = t.documented(), t.def.Group+"|"+t.def.Kind
			ts[t.name] = d
		}
		e.q = runtime.NewQuerier(e.s)
		out.emit(M{"tr": tr, "op": "init", "types": ts, "post": e.read(e.s), "dig": e.dig()})
		if scripts != nil {
			for _, op := range scripts[tr-1] {
				e.do(e.concreteAsk(op))
			}
			e.close()
			continue
		}
		late := chance(e.rng, 25)
		for i, t := range e.types {
			if !late || i != len(e.types)-1 {
				e.do(M{"op": "register", "t": t.name})
			}
		}
		built := e.rng.Intn(10)
		for i := 0; i < *fLen; i++ {
			if i == built {
				e.do(M{"op": "build", "how": pick(e.rng, "module", "objects")})
			}
			if chance(e.rng, 60) {
				e.do(e.randomAsk())
				continue
			}
			t := pick(e.rng, e.types...)
			if chance(e.rng, 50) {
				t = e.types[0]
			}
			switch n := e.rng.Intn(100); {
			case n < 60:
				e.do(M{"op": "create", "t": t.name, "o": e.randomObject(t)})
			case n < 85:
				e.do(M{"op": "update", "t": t.name, "o": e.randomObject(t)})
			case n < 97:
				e.do(M{"op": "delete", "t": t.name, "o": e.randomObject(t)})
			default:
				e.do(M{"op": "register", "t": t.name})
			}
		}
		for _, t := range e.types {
			for _, k := range t.keys() {
				e.do(M{"op": "query", "how": "get", "t": t.name, "k": k, "height": 0})
				if chance(e.rng, 30) {
					e.do(M{"op": "remote", "how": "get", "via": pick(e.rng, "rpc", "cli"), "node": "up", "t": t.name, "k": k})
				}
				how := "object"
				if t.sch.Singleton {
					how = "single"
				}
				if e.api != nil {
					e.do(M{"op": "http", "how": how, "t": t.name, "k": k, "n": 0, "method": "GET", "height": "", "limits": ""})
				}
			}
		}
		e.close()
	}
}

// concreteAsk does for the questions what concrete does for the rest
func (e *queryEnv) concreteAsk(op M) M {
	switch op["op"] {
	case "build":
		return op
	case "query", "http", "remote":
	default:
		return e.concrete(op)
	}
	r := M{}
	for k, v := range op {
		r[k] = v
	}
	if str(op["t"]) == "" {
		return r
	}
	t := e.typ(str(op["t"]))
	if _, ok := op["k"]; ok {
		switch {
		case t.sch.Singleton:
			r["k"] = "unique"
		default:
			x := e.concrete(M{"op": "create", "t": op["t"], "o": M{"k": op["k"], "f1": 0, "f2": 0, "p": 0}})
			r["k"] = x["o"].(M)[t.sch.PrimaryKey]
		}
		r["n"] = 0
	}
	if c, ok := op["crit"]; ok {
		x := e.concrete(M{"op": "list", "t": op["t"], "crit": c})
		for _, y := range list(x["crit"]) {
			y.(M)["mode"] = "s"
		}
		r["crit"] = x["crit"]
	}
	return r
}

var _ = fmt.Sprint
