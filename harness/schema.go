//go:build go1.23

package main

import (
	"fmt"
	"math/rand"

	"google.golang.org/protobuf/types/dynamicpb"

	meta "github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
)

// runSchema registers made up types and uses the ones which are accepted
func runSchema(rng *rand.Rand) {
	var cases [][]M
	if *fScript != "" {
		cases = readScripts(*fScript)
	} else {
		for i := 0; i < *fN; i++ {
			cases = append(cases, []M{randomCase(rng)})
		}
	}
	_, _, s := newStore()
	for i, c := range cases {
		tr := i + 1
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		for _, op := range c {
			schemaCase(tr, s, op)
		}
	}
}

var schemaFields = []fieldSpec{{name: "a_key", json: "aKey"}, {name: "b", json: "b"}, {name: "cD", json: "cD"}, {name: "d_2", json: "d2"}}

func randomCase(rng *rand.Rand) M {
	allKinds := []string{"string", "bytes", "bool", "int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "enum", "msg", "mapmsg", "deepmap", "rec"}
	fs := []interface{}{}
	names := []string{}
	for i := 0; i < 1+rng.Intn(4); i++ {
		f := schemaFields[i]
		k := pick(rng, keyKinds...)
		if chance(rng, 25) {
			k = pick(rng, allKinds...)
		}
		card := pick(rng, "one", "one", "one", "one", "one", "optional", "list")
		if chance(rng, 4) {
			card = "map"
		}
		if card == "optional" && (k == "msg" || k == "mapmsg" || k == "deepmap" || k == "rec") {
			card = "one"
		}
		fs = append(fs, M{"name": f.name, "json": f.json, "kind": k, "card": card})
		names = append(names, f.json)
	}
	odd := []string{"a_key", "nope", "AKey", "cd", ""}
	name := func() string {
		if chance(rng, 12) {
			return pick(rng, odd...)
		}
		return pick(rng, names...)
	}
	c := M{"op": "schema", "fields": fs, "single": chance(rng, 20), "pk": name()}
	sks := []interface{}{}
	for n := rng.Intn(4); n > 0; n-- {
		sks = append(sks, name())
	}
	if c["single"] == true {
		if chance(rng, 70) {
			c["pk"] = ""
		}
		if chance(rng, 70) {
			sks = []interface{}{}
		}
	}
	c["sks"] = sks
	return c
}

func schemaCase(tr int, s orm.Store, op M) {
	L := M{"tr": tr, "op": "schema", "fields": op["fields"], "single": op["single"], "pk": op["pk"], "sks": op["sks"]}
	t := &storeType{name: "T", def: &meta.APIDefinition{Group: "schema", Kind: fmt.Sprintf("K%d", tr)}, pools: map[string][]token{}}
	for _, x := range list(op["fields"]) {
		f := x.(M)
		t.fields = append(t.fields, fieldSpec{name: str(f["name"]), json: str(f["json"]), kind: str(f["kind"]), card: str(f["card"])})
	}
	t.sch = &schema.Definition{Singleton: boolean(op["single"]), PrimaryKey: str(op["pk"])}
	for _, k := range list(op["sks"]) {
		t.sch.SecondaryKeys = append(t.sch.SecondaryKeys, str(k))
	}
	md, err := forge("Msg", t.fields)
	if err != nil {
		panic(err)
	}
	t.md = md
	L["panic"] = guarded(func() { err = s.RegisterObject(t.empty(), t.sch) })
	L["accepted"] = err == nil && L["panic"] == ""
	L["listed"] = false
	for _, n := range s.ListRegisteredStateObjects() {
		if n == t.def.Name() {
			L["listed"] = true
		}
	}
	L["again"] = false
	L["usable"] = ""
	if err == nil && L["panic"] == "" {
		var err2 error
		// the same name with another definition
		pn := guarded(func() { err2 = s.RegisterObject(t.empty(), &schema.Definition{Singleton: true}) })
		L["again"] = err2 == nil || pn != ""
		var why string
		if pn := guarded(func() { why = use(t, s) }); pn != "" {
			why = "panic: " + pn
		}
		L["usable"] = why
	} else if L["panic"] == "" {
		// nothing of a refused type can be stored
		var err2 error
		pn := guarded(func() { err2 = s.Create(t.empty()) })
		L["again"] = err2 == nil || pn != ""
	}
	out.emit(L)
}

// use stores, reads, lists, changes and removes objects of a registered type
func use(t *storeType, s orm.Store) string {
	mk := func(n int) *dynObj {
		d := &dynObj{Message: dynamicpb.NewMessage(t.md), def: t.def}
		for i := range t.fields {
			f := &t.fields[i]
			if f.card != "one" && f.card != "optional" {
				continue
			}
			if _, ok := badValues[f.kind]; !ok {
				continue
			}
			fd := t.md.Fields().ByJSONName(f.json)
			vs := values[f.kind]
			valueOf(f.kind, fd, vs[(1-n%2+2*(n/2))%len(vs)], d)
		}
		return d
	}
	pkf := t.field(t.sch.PrimaryKey)
	// the key as an identifier
	sch, err := s.SchemaRegistry().Get(mk(0))
	if err != nil {
		return "not found in the registry"
	}
	if _, err := s.SchemaRegistry().GetByAPIDefinition(t.def); err != nil {
		return "not found by its API definition"
	}
	id := func(o *dynObj) meta.ID { return meta.NewBytesID(sch.EncodePrimaryKey(o)) }
	a, b := mk(0), mk(1)
	if pkf != nil && (pkf.kind == "string" || pkf.kind == "bytes") {
		b = mk(2) // the other value is empty, which is no valid key
	}
	if err := s.Create(a); err != nil {
		return "create: " + err.Error()
	}
	if !t.sch.Singleton {
		if err := s.Create(b); err != nil {
			return "second create: " + err.Error()
		}
	} else if s.Create(b) == nil {
		return "two objects of a singleton"
	}
	objs := []*dynObj{a}
	if !t.sch.Singleton {
		objs = append(objs, b)
	}
	same := func(x, y *dynObj) bool { return fmt.Sprint(t.project(x)) == fmt.Sprint(t.project(y)) }
	for i, o := range objs {
		g := t.empty()
		if err := s.Get(id(o), g); err != nil || !same(g, o) {
			return fmt.Sprintf("object %d is not read back: %v", i, err)
		}
		for _, k := range t.sch.SecondaryKeys {
			f := t.field(k)
			if f.card == "list" {
				continue
			}
			fd := t.md.Fields().ByJSONName(k)
			found := 0
			it, err := s.List(t.empty(), orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: k, Value: o.Get(fd).Interface()}}})
			if err != nil {
				return "list by " + k + ": " + err.Error()
			}
			for n := 0; it.Valid() && n < 10; n++ {
				g := t.empty()
				if it.Get(g) == nil && same(g, o) {
					found++
				}
				it.Next()
			}
			it.Close()
			if found != 1 {
				return fmt.Sprintf("object %d found %d times by %s", i, found, k)
			}
		}
	}
	if err := s.Update(a); err != nil {
		return "update: " + err.Error()
	}
	for _, o := range objs {
		if err := s.Delete(o); err != nil {
			return "delete: " + err.Error()
		}
		if s.Get(id(o), t.empty()) == nil {
			return "deleted object is still there"
		}
	}
	return ""
}
