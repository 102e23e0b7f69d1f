//go:build go1.23

package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	meta "github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
)

func init() {
	families["store"] = runStore
	families["schema"] = runSchema
}

// ---------- state objects of made up types ----------

// dynObj is a state object of a type which exists only in the harness
type dynObj struct {
	*dynamicpb.Message
	def *meta.APIDefinition
}

func (d *dynObj) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: d.def.Group, Kind: d.def.Kind, ApiType: d.def.ApiType}
}

func (d *dynObj) NewStateObject() meta.StateObject {
	return &dynObj{Message: dynamicpb.NewMessage(d.Message.Descriptor()), def: d.def}
}

type fieldSpec struct {
	name string // proto name
	json string
	kind string // string, bytes, ..., msg
	card string // one, list, map, optional
}

var kindTypes = map[string]descriptorpb.FieldDescriptorProto_Type{
	"string": descriptorpb.FieldDescriptorProto_TYPE_STRING, "bytes": descriptorpb.FieldDescriptorProto_TYPE_BYTES,
	"bool": descriptorpb.FieldDescriptorProto_TYPE_BOOL, "int32": descriptorpb.FieldDescriptorProto_TYPE_INT32,
	"uint32": descriptorpb.FieldDescriptorProto_TYPE_UINT32, "int64": descriptorpb.FieldDescriptorProto_TYPE_INT64,
	"uint64": descriptorpb.FieldDescriptorProto_TYPE_UINT64, "sint32": descriptorpb.FieldDescriptorProto_TYPE_SINT32,
	"sint64": descriptorpb.FieldDescriptorProto_TYPE_SINT64, "fixed32": descriptorpb.FieldDescriptorProto_TYPE_FIXED32,
	"fixed64": descriptorpb.FieldDescriptorProto_TYPE_FIXED64, "sfixed32": descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	"sfixed64": descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, "float": descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	"double": descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, "enum": descriptorpb.FieldDescriptorProto_TYPE_ENUM,
	"msg": descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, "mapmsg": descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
	"deepmap": descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, "rec": descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

var nTypes int

func p[T any](x T) *T { return &x }

// forge makes a message type: Sub is a plain nested message, MapSub one with a map
// inside, DeepSub one which contains such a message, Rec refers to itself.
func forge(msgName string, fields []fieldSpec) (protoreflect.MessageDescriptor, error) {
	nTypes++
	pkg := fmt.Sprintf("vh%d", nTypes)
	fld := func(name, json string, num int32, t descriptorpb.FieldDescriptorProto_Type, list bool, typeName string) *descriptorpb.FieldDescriptorProto {
		f := &descriptorpb.FieldDescriptorProto{Name: p(name), Number: p(num), Type: p(t), Label: p(descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)}
		if json != "" {
			f.JsonName = p(json)
		}
		if list {
			f.Label = p(descriptorpb.FieldDescriptorProto_LABEL_REPEATED)
		}
		if typeName != "" {
			f.TypeName = p(typeName)
		}
		return f
	}
	mapEntry := func(name string) *descriptorpb.DescriptorProto {
		return &descriptorpb.DescriptorProto{Name: p(name), Options: &descriptorpb.MessageOptions{MapEntry: p(true)}, Field: []*descriptorpb.FieldDescriptorProto{
			fld("key", "key", 1, descriptorpb.FieldDescriptorProto_TYPE_STRING, false, ""),
			fld("value", "value", 2, descriptorpb.FieldDescriptorProto_TYPE_STRING, false, ""),
		}}
	}
	sub := &descriptorpb.DescriptorProto{Name: p("Sub"), Field: []*descriptorpb.FieldDescriptorProto{
		fld("s", "s", 1, descriptorpb.FieldDescriptorProto_TYPE_STRING, false, ""),
		fld("i", "i", 2, descriptorpb.FieldDescriptorProto_TYPE_INT64, true, ""),
	}}
	mapSub := &descriptorpb.DescriptorProto{Name: p("MapSub"), Field: []*descriptorpb.FieldDescriptorProto{
		fld("m", "m", 1, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, true, "."+pkg+".MapSub.MEntry"),
	}, NestedType: []*descriptorpb.DescriptorProto{mapEntry("MEntry")}}
	deepSub := &descriptorpb.DescriptorProto{Name: p("DeepSub"), Field: []*descriptorpb.FieldDescriptorProto{
		fld("a", "a", 1, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, false, "."+pkg+".Sub"),
		fld("b", "b", 2, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, true, "."+pkg+".MapSub"),
	}}
	rec := &descriptorpb.DescriptorProto{Name: p("Rec"), Field: []*descriptorpb.FieldDescriptorProto{
		fld("s", "s", 1, descriptorpb.FieldDescriptorProto_TYPE_STRING, false, ""),
		fld("r", "r", 2, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, false, "."+pkg+".Rec"),
	}}
	m := &descriptorpb.DescriptorProto{Name: p(msgName)}
	for i, f := range fields {
		tn := map[string]string{"msg": ".Sub", "mapmsg": ".MapSub", "deepmap": ".DeepSub", "rec": ".Rec", "enum": ".En"}[f.kind]
		if tn != "" {
			tn = "." + pkg + tn
		}
		if f.card == "map" {
			en := "E" + strings.ToUpper(strings.ReplaceAll(f.name, "_", ""))
			en = mapEntryName(f.name)
			m.NestedType = append(m.NestedType, mapEntry(en))
			m.Field = append(m.Field, fld(f.name, f.json, int32(i+1), descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, true, "."+pkg+"."+msgName+"."+en))
			continue
		}
		fd := fld(f.name, f.json, int32(i+1), kindTypes[f.kind], f.card == "list", tn)
		if f.card == "optional" {
			fd.Proto3Optional = p(true)
			fd.OneofIndex = p(int32(len(m.OneofDecl)))
			m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: p("_" + f.name)})
		}
		m.Field = append(m.Field, fd)
	}
	file := &descriptorpb.FileDescriptorProto{Name: p(pkg + ".proto"), Package: p(pkg), Syntax: p("proto3"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: p("En"), Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: p("EN_A"), Number: p(int32(0))}, {Name: p("EN_B"), Number: p(int32(1))}}}},
		MessageType: []*descriptorpb.DescriptorProto{sub, mapSub, deepSub, rec, m},
		Options:     &descriptorpb.FileOptions{GoPackage: p("example.com/" + pkg)}}
	fd, err := protodesc.NewFile(file, nil)
	if err != nil {
		return nil, err
	}
	return fd.Messages().ByName(protoreflect.Name(msgName)), nil
}

// mapEntryName is the camel cased name protoc gives to the entries of a map field
func mapEntryName(field string) string {
	r := ""
	for _, s := range strings.Split(field, "_") {
		if s != "" {
			r += strings.ToUpper(s[:1]) + s[1:]
		}
	}
	return r + "Entry"
}

// ---------- values ----------

// a value of a field; tok is its name in the traces
type token struct {
	tok string
	v   interface{} // the Go value EncodeInterface expects
	str string      // how it is written as a string
	bad bool        // cannot be encoded
}

var values = map[string][]token{}

func addStr(tok, s string, bad bool) {
	values["string"] = append(values["string"], token{tok: tok, v: s, str: s, bad: bad})
}

func addBytes(tok string, b []byte) {
	values["bytes"] = append(values["bytes"], token{tok: tok, v: b, str: base64.RawStdEncoding.EncodeToString(b)})
}

func init() {
	for i, s := range []string{"", "a", "ab", "b", "abc", "bc", "c", "a/b", "/", "b/", "unique", "\x00", "a\x00", "é", "%s", "a=b", ".", "..", "a//b", "%2F", "a+b c", "a&b?c#d", "//", " a", "a ", " ", "A", "\n"} {
		addStr(fmt.Sprintf("s%d", i), s, false)
	}
	for _, n := range []int{127, 128, 129, 255, 256, 300, 1, 44, 257, 383} {
		addStr(fmt.Sprintf("S%d", n), strings.Repeat("x", n), false)
	}
	addStr("sbad", "a\xff", true)
	for i, b := range [][]byte{{}, {0}, {0, 0}, {0xff}, {0xff, 0xff}, []byte("a"), []byte("ab"), []byte("b"), {0x80, 1}, {'a', '/'}, {1}, {1, 0}} {
		addBytes(fmt.Sprintf("b%d", i), b)
	}
	for _, n := range []int{127, 128, 129, 255, 256, 300, 1, 44, 257, 383} {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xf0
		}
		addBytes(fmt.Sprintf("B%d", n), b)
	}
	values["bool"] = []token{{tok: "false", v: false, str: "false"}, {tok: "true", v: true, str: "true"}}
	for i, n := range []int64{0, 1, 2, -1, 127, 128, 255, 256, 300, -128, 16384, math.MaxInt32, math.MinInt32} {
		values["int32"] = append(values["int32"], token{tok: fmt.Sprintf("i%d", i), v: int32(n), str: strconv.FormatInt(n, 10)})
	}
	for i, n := range []int64{0, 1, 2, -1, 127, 128, 255, 256, 300, -128, 16384, math.MaxInt32, math.MinInt32, 1 << 31, 1 << 32, 1<<32 + 1, -(1 << 32), math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1} {
		values["int64"] = append(values["int64"], token{tok: fmt.Sprintf("I%d", i), v: n, str: strconv.FormatInt(n, 10)})
	}
	for i, n := range []uint64{0, 1, 2, 127, 128, 255, 256, 300, 16384, math.MaxInt32, 1 << 31, math.MaxUint32} {
		values["uint32"] = append(values["uint32"], token{tok: fmt.Sprintf("u%d", i), v: uint32(n), str: strconv.FormatUint(n, 10)})
	}
	for i, n := range []uint64{0, 1, 2, 127, 128, 255, 256, 300, 16384, math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64} {
		values["uint64"] = append(values["uint64"], token{tok: fmt.Sprintf("U%d", i), v: n, str: strconv.FormatUint(n, 10)})
	}
	values["msg"] = []token{{tok: "m0"}, {tok: "m1"}, {tok: "m2"}, {tok: "m3"}}
	values["rec"] = []token{{tok: "m0"}, {tok: "m1"}, {tok: "m2"}}
	values["list"] = []token{{tok: "l0"}, {tok: "l1"}, {tok: "l2"}, {tok: "l3"}}
}

var keyKinds = []string{"string", "bytes", "bool", "int32", "uint32", "int64", "uint64"}

// strings which cannot be parsed as a value of the kind
var badStrings = map[string][]string{
	"bool": {"", "maybe", "2", "yes", " true"}, "int32": {"", "x", "2147483648", "-2147483649", "1.0", "0x1", "1_0", " 1", "1 "}, "uint32": {"", "-1", "4294967296", "x", "0x1", "0b1", "1 "},
	"int64": {"", "9223372036854775808", "1e3", "0x10", "-0x1", "1_000", "0o7", "--1"}, "uint64": {"", "-1", "18446744073709551616", "0x1", "0X1", " 2"}, "bytes": {"*", "a", "YQ==", "_w", "-w", "YQ "},
}

// values of another Go type than the one of the field
var badValues = map[string][]interface{}{
	"string": {nil, 5, []byte("a"), true}, "bytes": {nil, "a", 5}, "bool": {nil, 1, "true"},
	"int32": {nil, int64(1), uint32(1), "1"}, "uint32": {nil, int32(1), uint64(1), "1"}, "int64": {nil, int32(1), uint64(1), "1"}, "uint64": {nil, int64(1), uint32(1), "1"},
}

func valueOf(kind string, fd protoreflect.FieldDescriptor, t token, m protoreflect.Message) {
	switch kind {
	case "rec":
		if t.tok == "m0" {
			m.Clear(fd)
			return
		}
		r := m.NewField(fd).Message()
		if t.tok == "m2" {
			r.Mutable(r.Descriptor().Fields().ByName("r")).Message().Set(r.Descriptor().Fields().ByName("s"), protoreflect.ValueOfString("deep"))
		}
		m.Set(fd, protoreflect.ValueOfMessage(r))
	case "msg":
		if t.tok == "m0" {
			m.Clear(fd)
			return
		}
		s := m.NewField(fd).Message()
		fs := s.Descriptor().Fields()
		if t.tok != "m1" {
			s.Set(fs.ByName("s"), protoreflect.ValueOfString(strings.Repeat("y", len(t.tok)*70)+t.tok))
			l := s.Mutable(fs.ByName("i")).List()
			for i := 0; i < 3; i++ {
				l.Append(protoreflect.ValueOfInt64(int64(i) - 1))
			}
			if t.tok == "m3" {
				l.Append(protoreflect.ValueOfInt64(math.MinInt64))
			}
		}
		m.Set(fd, protoreflect.ValueOfMessage(s))
	case "list":
		m.Clear(fd)
		for _, s := range map[string][]string{"l1": {"a"}, "l2": {"a", "", "b"}, "l3": {""}}[t.tok] {
			m.Mutable(fd).List().Append(protoreflect.ValueOfString(s))
		}
	case "bytes":
		m.Set(fd, protoreflect.ValueOfBytes(append([]byte{}, t.v.([]byte)...)))
	default:
		m.Set(fd, protoreflect.ValueOf(t.v))
	}
}

// ---------- a store and its types ----------

type storeType struct {
	name   string
	def    *meta.APIDefinition
	fields []fieldSpec
	md     protoreflect.MessageDescriptor
	sch    *schema.Definition
	pools  map[string][]token // values used for each field
}

func (t *storeType) field(json string) *fieldSpec {
	for i := range t.fields {
		if t.fields[i].json == json {
			return &t.fields[i]
		}
	}
	return nil
}

func (t *storeType) kindOf(f *fieldSpec) string {
	if f.card == "list" {
		return "list"
	}
	return f.kind
}

func (t *storeType) empty() *dynObj {
	return &dynObj{Message: dynamicpb.NewMessage(t.md), def: t.def}
}

func lookup(kind, tok string) token {
	for _, x := range values[kind] {
		if x.tok == tok {
			return x
		}
	}
	panic("no token " + tok + " of " + kind)
}

// build makes the object with the given tokens
func (t *storeType) build(o M) *dynObj {
	d := t.empty()
	for i := range t.fields {
		f := &t.fields[i]
		if tok, ok := o[f.json]; ok && tok != "?" {
			k := t.kindOf(f)
			valueOf(k, t.md.Fields().ByJSONName(f.json), lookup(k, tok.(string)), d)
		}
	}
	if boolean(o["_unknown"]) {
		d.SetUnknown(protoreflect.RawFields{0xf8, 0x07, 0x01}) // field 127, varint 1
	}
	return d
}

// project names the values of an object
func (t *storeType) project(d *dynObj) M {
	r := M{}
	for i := range t.fields {
		f := &t.fields[i]
		k := t.kindOf(f)
		fd := t.md.Fields().ByJSONName(f.json)
		r[f.json] = "?"
		for _, x := range values[k] {
			if x.bad {
				continue
			}
			c := t.empty()
			valueOf(k, fd, x, c)
			// a field with its default value is the same as an unset one
			a, b := t.empty(), t.empty()
			if d.Has(fd) {
				a.Set(fd, d.Get(fd))
			}
			if c.Has(fd) {
				b.Set(fd, c.Get(fd))
			}
			if proto.Equal(a.Message, b.Message) {
				r[f.json] = x.tok
				break
			}
		}
	}
	return r
}

func (t *storeType) id(tok string) meta.ID {
	if t.sch.Singleton {
		return meta.SingletonID
	}
	f := t.field(t.sch.PrimaryKey)
	x := lookup(f.kind, tok)
	switch f.kind {
	case "string":
		return meta.NewStringID(x.v.(string))
	}
	// identifiers of other kinds are their encodings
	sch, err := schema.NewSchema(t.empty(), &schema.Definition{PrimaryKey: t.sch.PrimaryKey})
	if err != nil {
		panic(err)
	}
	return meta.NewBytesID(sch.EncodePrimaryKey(t.build(M{f.json: tok})))
}

type storeEnv struct {
	tr    int
	rng   *rand.Rand
	okv   *kv.Badger
	ikv   *kv.Badger
	s     orm.Store
	types []*storeType
	reg   map[string]bool
	ids   map[string]meta.ID
	reads int
	names [][2]string // the groups and kinds types are made of
	rec   bool        // types which refer to themselves, too
}

func newStore() (*kv.Badger, *kv.Badger, orm.Store) {
	a, b := kv.NewBadger(), kv.NewBadger()
	return a, b, orm.NewStore(objects.NewStore(a), indexes.NewStore(b))
}

func (e *storeEnv) close() { closeDBs(findDBs([]interface{}{e.okv, e.ikv})) }

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, orm.ErrNotFound):
		return "notfound"
	case errors.Is(err, orm.ErrAlreadyExists):
		return "exists"
	}
	return "other"
}

var typeNames = [][2]string{{"g", "t"}, {"g", "ta"}, {"g", "tab"}, {"ga", "t"}, {"g.t", "a"}, {"h", "t"}}

// makeTypes invents the types of a trace
func (e *storeEnv) makeTypes(scripted bool) {
	rng := e.rng
	typeNames := typeNames
	if e.names != nil {
		typeNames = e.names
	}
	perm := rng.Perm(len(typeNames))
	shapes := []string{"indexed", "indexed", "plain"}
	family := !scripted && chance(rng, 35) // types whose names and keys are prefixes of each other
	if chance(rng, 50) || scripted {
		shapes[2] = "single"
	}
	if scripted {
		shapes = []string{"indexed", "plain", "single"}
	}
	if family {
		perm = rng.Perm(3)
		shapes[2] = pick(rng, "indexed", "indexed", "plain", "single")
		if chance(rng, 30) {
			for i, k := range perm {
				perm[i] = []int{0, 3, 5}[k] // the same kind in several groups
			}
		}
	}
	names := [][2]string{{"f", "f"}, {"fa", "fa"}, {"fab", "fab"}, {"a_number", "aNumber"}, {"g", "g"}, {"value", "value"}}
	for i, shape := range shapes {
		t := &storeType{name: fmt.Sprintf("T%d", i), def: &meta.APIDefinition{Group: typeNames[perm[i]][0], Kind: typeNames[perm[i]][1], ApiType: meta.APIType_StateObject}, sch: &schema.Definition{}, pools: map[string][]token{}}
		nf := 3 + rng.Intn(3)
		fp := rng.Perm(len(names))
		for k := 0; k < nf; k++ {
			nm := names[fp[k]]
			t.fields = append(t.fields, fieldSpec{name: nm[0], json: nm[1], kind: pick(rng, keyKinds...), card: pick(rng, "one", "one", "one", "optional")})
		}
		t.fields = append(t.fields, fieldSpec{name: "nested_payload", json: "nestedPayload", kind: "msg", card: "one"}, fieldSpec{name: "l", json: "l", kind: "string", card: "list"})
		if e.rec && chance(rng, 30) {
			t.fields = append(t.fields, fieldSpec{name: "r", json: "r", kind: "rec", card: "one"})
		}
		switch shape {
		case "single":
			t.sch.Singleton = true
		default:
			t.sch.PrimaryKey = t.fields[rng.Intn(nf)].json
			for t.field(t.sch.PrimaryKey).kind == "bool" && chance(rng, 80) {
				t.field(t.sch.PrimaryKey).kind = pick(rng, keyKinds...)
			}
			t.field(t.sch.PrimaryKey).card = "one"
			if shape == "indexed" {
				for _, k := range rng.Perm(nf) {
					if len(t.sch.SecondaryKeys) < 2 || chance(rng, 40) {
						t.sch.SecondaryKeys = append(t.sch.SecondaryKeys, t.fields[k].json)
					}
				}
			}
		}
		// keys and values which are prefixes of each other, in all fields
		alike := shape == "indexed" && chance(rng, 40) || family && shape != "single"
		if alike {
			for k := range t.fields[:nf] {
				if t.fields[k].kind != "bool" && (t.fields[k].json == t.sch.PrimaryKey || chance(rng, 70)) {
					t.fields[k].kind = "string"
				}
			}
		}
		for k := range t.fields {
			f := &t.fields[k]
			kind := t.kindOf(f)
			all := values[kind]
			if alike && kind == "string" {
				all = all[:8]
			}
			n := 2 + rng.Intn(2)
			if f.json == t.sch.PrimaryKey {
				n = 5
			}
			if family && alike && kind == "string" {
				n = 5
			}
			if scripted {
				n = 3
			}
			var pool []token
			if !scripted && (kind == "string" || kind == "bytes") && (!family || shape == "single") && chance(rng, 25) {
				// values which start with each other and whose lengths have digits in common
				var long []token
				for _, x := range all {
					if x.tok[0] == 'S' || x.tok[0] == 'B' || x.tok == "s0" || x.tok == "b0" {
						long = append(long, x)
					}
				}
				if len(long) > 5 {
					all, n = long, 5
				}
			}
			for _, j := range rng.Perm(len(all)) {
				x := all[j]
				if x.bad || scripted && f.json == t.sch.PrimaryKey && (x.tok == "s0" || x.tok == "b0") {
					continue
				}
				// prefer the short ones, which are prefixes of each other
				if len(x.str) > 100 && len(all) > 11 && chance(rng, 60) {
					continue
				}
				if len(pool) < n {
					pool = append(pool, x)
				}
			}
			for kind == "bool" && scripted && len(pool) < n {
				pool = append(pool, pool[len(pool)-1])
			}
			t.pools[f.json] = pool
		}
		md, err := forge("T", t.fields)
		if err != nil {
			panic(err)
		}
		t.md = md
		e.types = append(e.types, t)
	}
}

func (t *storeType) describe() M {
	sks := []interface{}{}
	for _, s := range t.sch.SecondaryKeys {
		sks = append(sks, s)
	}
	kinds := M{}
	for i := range t.fields {
		kinds[t.fields[i].json] = t.fields[i].kind
	}
	return M{"name": t.def.Name(), "pk": t.sch.PrimaryKey, "single": t.sch.Singleton, "sks": sks, "kinds": kinds}
}

// keys are all the keys of objects of the type used in the trace
func (t *storeType) keys() []string {
	if t.sch.Singleton {
		return []string{"unique"}
	}
	var r []string
	for _, x := range t.pools[t.sch.PrimaryKey] {
		r = append(r, x.tok)
	}
	return r
}

func (e *storeEnv) idOf(t *storeType, tok string) meta.ID {
	k := t.name + "/" + tok
	if id, ok := e.ids[k]; ok {
		return id
	}
	id := t.id(tok)
	e.ids[k] = id
	return id
}

// target is an object to read into: whatever it contains is to be replaced
func (e *storeEnv) target(t *storeType) *dynObj {
	if e.reads++; e.reads%2 == 0 {
		return t.empty()
	}
	o := M{}
	for i := range t.fields {
		pool := t.pools[t.fields[i].json]
		o[t.fields[i].json] = pool[(e.reads/2)%len(pool)].tok
	}
	return t.build(o)
}

// read reads every object which the trace could have stored
func (e *storeEnv) read(s orm.Store) M {
	objs := M{}
	for _, t := range e.types {
		m := M{}
		if e.reg[t.name] {
			for _, k := range t.keys() {
				o := e.target(t)
				var err error
				if pn := guarded(func() { err = s.Get(e.idOf(t, k), o) }); pn != "" {
					m[k] = M{"panic": pn}
				} else if err == nil {
					m[k] = t.project(o)
				} else if errClass(err) != "notfound" {
					// an empty key is refused before it is looked up
					if x := t.sch.PrimaryKey; x == "" || k != "s0" && k != "b0" {
						m[k] = M{"error": err.Error()}
					}
				}
			}
		}
		objs[t.name] = m
	}
	return objs
}

func (e *storeEnv) dig() string { return digest(findDBs([]interface{}{e.okv, e.ikv}), nil) }

// fresh is the digest of a new store with the same objects, created in any order
func (e *storeEnv) fresh() string {
	ok, ik, s2 := newStore()
	defer closeDBs(findDBs([]interface{}{ok, ik}))
	all := e.read(e.s)
	for _, t := range e.types {
		if !e.reg[t.name] {
			continue
		}
		must(s2.RegisterObject(t.empty(), t.sch))
		objs := all[t.name].(M)
		ks := sortedKeys(objs)
		e.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			o := objs[k].(M)
			if _, odd := o["error"]; odd {
				return "?"
			}
			if _, odd := o["panic"]; odd {
				return "?"
			}
			if errc, pn := e.mutate(s2, "create", t, o); errc != "" || pn != "" {
				return "cannot be created again: " + k + errc + pn
			}
		}
	}
	return digest(findDBs([]interface{}{ok, ik}), nil)
}

func (e *storeEnv) typ(name string) *storeType {
	for _, t := range e.types {
		if t.name == name {
			return t
		}
	}
	panic("no type " + name)
}

func scribble(d *dynObj) {
	// the caller's object is its own: whatever it does to it later must not matter
	d.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Kind() == protoreflect.BytesKind && !fd.IsList() {
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0x5a
			}
		}
		return true
	})
	d.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool { d.Clear(fd); return true })
}

func ormOptions(t *storeType, crit []interface{}) orm.ListOptions {
	var o orm.ListOptions
	for _, c := range crit {
		x := c.(M)
		field, mode := str(x["f"]), str(x["mode"])
		f := t.field(field)
		kind := "string"
		if f != nil {
			kind = t.kindOf(f)
		}
		switch mode {
		case "i", "s":
			if f == nil || kind == "msg" || kind == "list" || kind == "rec" {
				if mode == "i" {
					o.MatchFieldInterface = append(o.MatchFieldInterface, orm.ListMatchFieldInterface{Field: field, Value: "a"})
				} else {
					o.MatchFieldString = append(o.MatchFieldString, orm.ListMatchFieldString{Field: field, Value: "a"})
				}
				break
			}
			v := lookup(kind, str(x["v"]))
			if mode == "i" {
				o.MatchFieldInterface = append(o.MatchFieldInterface, orm.ListMatchFieldInterface{Field: field, Value: v.v})
			} else {
				o.MatchFieldString = append(o.MatchFieldString, orm.ListMatchFieldString{Field: field, Value: v.str})
			}
		case "bt":
			bv := badValues[kind]
			o.MatchFieldInterface = append(o.MatchFieldInterface, orm.ListMatchFieldInterface{Field: field, Value: bv[int(num(x["n"]))%len(bv)]})
		case "bs":
			bs := badStrings[kind]
			o.MatchFieldString = append(o.MatchFieldString, orm.ListMatchFieldString{Field: field, Value: bs[int(num(x["n"]))%len(bs)]})
		}
	}
	return o
}

// walk runs an iterator to its end
func (e *storeEnv) walk(t *storeType, s orm.Store, opt orm.ListOptions, hook func(i int)) (seen []interface{}, errc, pn string) {
	seen = []interface{}{}
	pn = guarded(func() {
		it, err := s.List(t.empty(), opt)
		if err != nil {
			errc = errClass(err)
			return
		}
		defer it.Close()
		for i := 0; it.Valid(); i++ {
			if i > 1000 {
				panic("endless iterator")
			}
			if hook != nil {
				hook(i)
			}
			o := e.target(t)
			if err := it.Get(o); err != nil {
				seen = append(seen, M{"gone": errClass(err)})
			} else {
				seen = append(seen, t.project(o))
			}
			it.Next()
		}
	})
	return
}

func (e *storeEnv) keyTok(t *storeType, o M) string {
	if t.sch.Singleton {
		return "unique"
	}
	k, _ := o[t.sch.PrimaryKey].(string)
	return k
}

// audit lists the objects by each value of each field
func (e *storeEnv) audit(t *storeType, s orm.Store) M {
	r := M{}
	for _, f := range t.sch.SecondaryKeys {
		m := M{}
		for i, v := range t.pools[f] {
			mode := "i"
			if (i+e.tr)%2 == 0 {
				mode = "s"
			}
			seen, _, pn := e.walk(t, s, ormOptions(t, []interface{}{M{"f": f, "v": v.tok, "mode": mode}}), nil)
			ks := []interface{}{}
			for _, o := range seen {
				ks = append(ks, e.keyTok(t, o.(M)))
			}
			if pn != "" {
				ks = append(ks, "panic: "+pn)
			}
			m[v.tok] = ks
		}
		r[f] = m
	}
	return r
}

// mutate runs create, update and delete
func (e *storeEnv) mutate(s orm.Store, op string, t *storeType, o M) (errc, pn string) {
	d := t.build(o)
	var err error
	pn = guarded(func() {
		switch op {
		case "create":
			err = s.Create(d)
		case "update":
			err = s.Update(d)
		case "delete":
			err = s.Delete(d)
		}
	})
	errc = errClass(err)
	scribble(d)
	return
}

func (e *storeEnv) do(op M) {
	t := e.typ(str(op["t"]))
	L := M{"tr": e.tr, "op": op["op"], "t": op["t"]}
	switch op["op"] {
	case "register":
		var err error
		L["panic"] = guarded(func() {
			err = e.s.RegisterObject(t.empty(), t.sch)
		})
		L["err"] = "other"
		if err == nil {
			L["err"] = ""
			e.reg[t.name] = true
		}
	case "create", "update", "delete":
		L["o"] = op["o"]
		L["err"], L["panic"] = e.mutate(e.s, str(op["op"]), t, op["o"].(M))
	case "get":
		L["k"] = op["k"]
		o := e.target(t)
		var err error
		L["panic"] = guarded(func() { err = e.s.Get(e.idOf(t, str(op["k"])), o) })
		L["err"] = errClass(err)
		L["got"] = M{}
		if err == nil {
			L["got"] = t.project(o)
		}
		scribble(o)
	case "list":
		L["crit"] = op["crit"]
		seen, errc, pn := e.walk(t, e.s, ormOptions(t, list(op["crit"])), nil)
		L["err"], L["panic"], L["seen"] = errc, pn, seen
	case "listmod":
		L["crit"], L["cut"], L["mod"] = op["crit"], op["cut"], op["mod"]
		opt := ormOptions(t, list(op["crit"]))
		base, _, _ := e.walk(t, e.s, opt, nil)
		bk := []interface{}{}
		for _, o := range base {
			bk = append(bk, e.keyTok(t, o.(M)))
		}
		L["base"] = bk
		mod := op["mod"].(M)
		L["ran"], L["merr"] = false, ""
		L["seen"], L["err"], L["panic"] = nil, "", ""
		seen, errc, pn := e.walk(t, e.s, opt, func(i int) {
			if i == int(num(op["cut"])) {
				mp := ""
				L["merr"], mp = e.mutate(e.s, str(mod["op"]), t, mod["o"].(M))
				if mp != "" {
					panic(mp)
				}
				L["ran"] = true
			}
		})
		L["seen"], L["err"], L["panic"] = seen, errc, pn
	case "audit":
		L["res"] = e.audit(t, e.s)
		L["panic"], L["err"] = "", ""
	case "order":
		// the same objects, stored in another order and after others were deleted
		ok, ik, s2 := newStore()
		defer closeDBs(findDBs([]interface{}{ok, ik}))
		if err := s2.RegisterObject(t.empty(), t.sch); err != nil {
			panic(err)
		}
		objs := e.read(e.s)[t.name].(M)
		ks := sortedKeys(objs)
		e.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		L["panic"] = ""
		for _, k := range ks {
			o := objs[k].(M)
			if _, odd := o["error"]; odd {
				continue
			}
			e.mutate(s2, "create", t, o)
			if chance(e.rng, 50) {
				e.mutate(s2, "delete", t, o)
				e.mutate(s2, "create", t, o)
			}
		}
		L["a"], L["b"], L["err"] = e.audit(t, e.s), e.audit(t, s2), ""
		a2, _, _ := e.walk(t, e.s, ormOptions(t, list(op["crit"])), nil)
		b2, _, _ := e.walk(t, s2, ormOptions(t, list(op["crit2"])), nil)
		L["c"], L["d"] = a2, b2
		L["fresh"] = e.fresh()
	}
	L["post"] = e.read(e.s)
	L["dig"] = e.dig()
	out.emit(L)
}

// ---------- random behaviour ----------

func (e *storeEnv) randomObject(t *storeType) M {
	o := M{}
	for i := range t.fields {
		f := &t.fields[i]
		o[f.json] = pick(e.rng, t.pools[f.json]...).tok
	}
	if chance(e.rng, 3) {
		o["_unknown"] = true
	}
	if chance(e.rng, 4) {
		for i := range t.fields {
			if t.fields[i].kind == "string" && t.fields[i].card != "list" && t.fields[i].json != t.sch.PrimaryKey {
				o[t.fields[i].json] = "sbad"
			}
		}
	}
	return o
}

func (e *storeEnv) randomCrit(t *storeType, n int) []interface{} {
	r := []interface{}{}
	// mostly what some object has
	var like M
	if objs := e.read(e.s)[t.name].(M); len(objs) > 0 && chance(e.rng, 70) {
		like = objs[pick(e.rng, sortedKeys(objs)...)].(M)
	}
	for i := 0; i < n; i++ {
		f := pick(e.rng, t.fields...)
		if len(t.sch.SecondaryKeys) > 0 && chance(e.rng, 94) {
			f = *t.field(pick(e.rng, t.sch.SecondaryKeys...))
		}
		if chance(e.rng, 2) {
			r = append(r, M{"f": pick(e.rng, "nope", "", f.name+"x"), "v": "s1", "mode": "i"})
			continue
		}
		v := pick(e.rng, t.pools[f.json]...).tok
		if x, ok := like[f.json].(string); ok && x != "?" && chance(e.rng, 85) {
			v = x
		}
		c := M{"f": f.json, "v": v, "mode": pick(e.rng, "i", "s")}
		k := t.kindOf(&f)
		if chance(e.rng, 4) && k != "msg" && k != "list" && k != "rec" {
			c["mode"] = "bt"
			if len(badStrings[k]) > 0 && chance(e.rng, 50) {
				c["mode"] = "bs"
			}
			c["n"] = e.rng.Intn(9)
		}
		r = append(r, c)
	}
	return r
}

func (e *storeEnv) randomOp() M {
	rng := e.rng
	t := pick(rng, e.types...)
	if chance(rng, 50) {
		t = e.types[0]
	}
	switch n := rng.Intn(100); {
	case n < 32:
		return M{"op": "create", "t": t.name, "o": e.randomObject(t)}
	case n < 54:
		return M{"op": "update", "t": t.name, "o": e.randomObject(t)}
	case n < 63:
		return M{"op": "delete", "t": t.name, "o": e.randomObject(t)}
	case n < 68:
		return M{"op": "get", "t": t.name, "k": pick(rng, t.keys()...)}
	case n < 82:
		return M{"op": "list", "t": t.name, "crit": e.randomCrit(t, pick(rng, 0, 1, 1, 2, 2, 2, 3))}
	case n < 87 && len(t.sch.SecondaryKeys) > 0:
		c := e.randomCrit(t, pick(rng, 1, 1, 2, 2, 3))
		return M{"op": "listmod", "t": t.name, "crit": c, "cut": pick(rng, 0, 0, 1, 2), "mod": M{"op": pick(rng, "create", "update", "delete"), "o": e.randomObject(t)}}
	case n < 94:
		return M{"op": "audit", "t": t.name}
	case n < 97 && len(t.sch.SecondaryKeys) > 1:
		c := e.randomCrit(t, 2)
		c2 := []interface{}{c[1], c[0]}
		return M{"op": "order", "t": t.name, "crit": c, "crit2": c2}
	default:
		return M{"op": "register", "t": t.name}
	}
}

func runStore(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	for tr := 1; tr <= n; tr++ {
		seed := rng.Int63()
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		e := &storeEnv{tr: tr, rng: rand.New(rand.NewSource(seed)), reg: map[string]bool{}, ids: map[string]meta.ID{}}
		e.okv, e.ikv, e.s = newStore()
		e.makeTypes(scripts != nil)
		ts := M{}
		for _, t := range e.types {
			ts[t.name] = t.describe()
		}
		out.emit(M{"tr": tr, "op": "init", "types": ts, "post": e.read(e.s), "dig": e.dig()})
		if scripts != nil {
			for _, op := range scripts[tr-1] {
				e.do(e.concrete(op))
			}
		} else {
			late := chance(e.rng, 30)
			for i, t := range e.types {
				if late && i == len(e.types)-1 {
					continue
				}
				e.do(M{"op": "register", "t": t.name})
			}
			for i := 0; i < *fLen; i++ {
				e.do(e.randomOp())
			}
			for _, t := range e.types {
				if e.reg[t.name] {
					e.do(M{"op": "audit", "t": t.name})
				}
			}
		}
		e.close()
	}
}

// concrete turns an operation of the specification (fields f1, f2; values 0, 1, 2) into
// one on the types of this trace
func (e *storeEnv) concrete(op M) M {
	r := M{"op": op["op"], "t": op["t"]}
	t := e.typ(str(op["t"]))
	val := func(f string, i interface{}) string {
		pool := t.pools[f]
		return pool[(int(num(i))+len(pool))%len(pool)].tok
	}
	obj := func(o M) M {
		x := M{}
		for i := range t.fields {
			x[t.fields[i].json] = t.pools[t.fields[i].json][0].tok
		}
		if !t.sch.Singleton {
			for i, s := range t.sch.SecondaryKeys {
				if i < 2 {
					x[s] = val(s, o[[]string{"f1", "f2"}[i]])
				}
			}
			x[t.sch.PrimaryKey] = val(t.sch.PrimaryKey, o["k"])
			// -1 stands for the empty key, of the kinds which have one
			if num(o["k"]) < 0 {
				switch t.field(t.sch.PrimaryKey).kind {
				case "string":
					x[t.sch.PrimaryKey] = "s0"
				case "bytes":
					x[t.sch.PrimaryKey] = "b0"
				}
			}
		}
		x["nestedPayload"] = val("nestedPayload", o["p"])
		if boolean(o["bad"]) {
			x["_unknown"] = true
		}
		return x
	}
	crit := func(c interface{}) []interface{} {
		l := []interface{}{}
		for _, y := range list(c) {
			z := y.(M)
			i := map[string]int{"f1": 0, "f2": 1}[str(z["f"])]
			if i < len(t.sch.SecondaryKeys) && str(z["f"]) != "zz" {
				s := t.sch.SecondaryKeys[i]
				l = append(l, M{"f": s, "v": val(s, z["v"]), "mode": z["mode"]})
			} else {
				l = append(l, M{"f": "nope", "v": "s1", "mode": "i"})
			}
		}
		return l
	}
	if o, ok := op["o"].(M); ok {
		r["o"] = obj(o)
	}
	if op["op"] == "get" {
		r["k"] = "unique"
		if !t.sch.Singleton {
			r["k"] = val(t.sch.PrimaryKey, op["k"])
		}
	}
	if op["op"] == "list" || op["op"] == "listmod" {
		r["crit"] = crit(op["crit"])
	}
	if op["op"] == "listmod" {
		m := op["mod"].(M)
		r["cut"] = op["cut"]
		r["mod"] = M{"op": m["op"], "o": obj(m["o"].(M))}
	}
	return r
}
