//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"

	openapi_v3 "github.com/googleapis/gnostic/openapiv3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	abci "github.com/fdymylja/tmos/core/abci"
	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	coreruntime "github.com/fdymylja/tmos/core/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/bank"
	"github.com/fdymylja/tmos/x/distribution"
)

func init() {
	families["doc"] = runDoc
}

// ---------- made up programs ----------

// names which YAML, JSON or URLs could take for something else
var docFieldNames = [][2]string{{"a", "a"}, {"b_c", "bC"}, {"null", "null"}, {"on", "on"}, {"yes", "yes"}, {"n", "n"}, {"true", "true"}, {"list", "list"},
	{"type", "type"}, {"ref", "$ref"}, {"odd", "a b"}, {"num", "1e3"}, {"tilde", "~"}, {"colon", "x: y"}, {"hash", "# z"}, {"d_2_e", "d2E"}, {"A_b", "AB"}, {"properties", "properties"},
	{"value", "value"}, {"at", "@type"}, {"oct", "0o7"}, {"date", "2020-01-01"}, {"star", "*x"}, {"amp", "&y"}, {"empty", "-"}}

var docWellKnown = []string{"google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.StringValue", "google.protobuf.Int64Value", "google.protobuf.UInt32Value",
	"google.protobuf.BoolValue", "google.protobuf.BytesValue", "google.protobuf.Any"}

var docImports = map[string]string{"google.protobuf.Timestamp": "google/protobuf/timestamp.proto", "google.protobuf.Duration": "google/protobuf/duration.proto", "google.protobuf.Any": "google/protobuf/any.proto"}

var docKeyNames = []string{"theKey", "theKey", "key", "id", "x_y", "ID", "theKeyOfTheObjectWhichIsServed", "start", "k"}

// fields of objects themselves are of fewer kinds than those of the messages in them
var docObjectKinds = []string{"string", "bytes", "bool", "int32", "uint32", "int64", "uint64", "enum", "msg", "msg", "msg"}
var docKinds = append([]string{"sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"}, docObjectKinds...)

// randomDoc makes up a program: messages in files, some in each other, some served
func randomDoc(rng *rand.Rand) M {
	type msg struct {
		file, parent, depth int
		serve               string
	}
	nf := 1 + rng.Intn(3)
	nm := 1 + rng.Intn(7)
	if chance(rng, 6) {
		nf, nm = 5+rng.Intn(30), 15+rng.Intn(25)
	}
	pkgs := []interface{}{}
	for i := 0; i < nf; i++ {
		pkgs = append(pkgs, pick(rng, "a", "a", "b", "a.b", "a.v1"))
	}
	var ms []msg
	for i := 0; i < nm; i++ {
		m := msg{file: 1 + rng.Intn(nf), serve: pick(rng, "keyed", "keyed", "single", "no", "no")}
		if i > 0 && chance(rng, 35) {
			if j := rng.Intn(i); ms[j].depth < 2 {
				m.parent, m.file, m.depth, m.serve = j+1, ms[j].file, ms[j].depth+1, "no"
			}
		}
		ms = append(ms, m)
	}
	r := []interface{}{}
	taken := map[string]bool{}
	for i, m := range ms {
		fs := []interface{}{}
		used := map[string]bool{}
		for n := rng.Intn(6); n > 0; n-- {
			name := pick(rng, docFieldNames...)
			if used[name[0]] || used[name[1]] {
				continue
			}
			used[name[0]], used[name[1]] = true, true
			kinds := docKinds
			if m.serve != "no" {
				kinds = docObjectKinds
			}
			f := M{"name": name[0], "json": name[1], "kind": pick(rng, kinds...), "card": pick(rng, "one", "one", "list", "optional", "oneof"), "ref": 0, "wk": ""}
			if f["kind"] == "msg" {
				if chance(rng, 20) {
					f["wk"] = pick(rng, docWellKnown...)
				} else {
					// files refer to themselves and to those before them
					var c []int
					for j, o := range ms {
						if o.file <= m.file {
							c = append(c, j+1)
						}
					}
					f["ref"] = pick(rng, c...)
				}
				if f["card"] == "optional" {
					f["card"] = "one"
				}
			}
			fs = append(fs, f)
		}
		name := fmt.Sprintf("M%d", i+1)
		if m.parent == 0 && chance(rng, 30) && !taken[fmt.Sprint(pkgs[m.file-1], ".M")] {
			name = "M" // the same name in several packages
			taken[fmt.Sprint(pkgs[m.file-1], ".M")] = true
		}
		if m.parent != 0 && chance(rng, 50) {
			name = "Inner" // the same name in several messages
			for j := 0; j < i; j++ {
				if ms[j].parent == m.parent {
					name = fmt.Sprintf("Inner%d", i)
				}
			}
		}
		r = append(r, M{"file": m.file, "name": name, "parent": m.parent, "serve": m.serve, "fields": fs})
	}
	return M{"op": "doc", "pkgs": pkgs, "msgs": r, "enums": chance(rng, 30), "go": pick(rng, "", "", "shared", "named"), "key": pick(rng, docKeyNames...)}
}

// docKind is the kind of the i-th message: the same in several groups, if they are of different ones
func docKind(msgs []interface{}, i int) string {
	n := 0
	for j := 0; j < i; j++ {
		if num(msgs[j].(M)["file"]) == num(msgs[i].(M)["file"]) {
			n++
		}
	}
	return fmt.Sprintf("K%d", n+1)
}

// docKey is the name of the primary key of objects
func docKey(op M) string {
	if k := str(op["key"]); k != "" {
		return k
	}
	return "theKey"
}

// docFiles makes the files of a program, registered like those of generated code
func docFiles(tr int, op M) (mds []protoreflect.MessageDescriptor, defs []*meta.APIDefinition) {
	pkgs, msgs := list(op["pkgs"]), list(op["msgs"])
	full := make([]string, len(msgs))
	for i, x := range msgs {
		m := x.(M)
		switch pkg := str(pkgs[num(m["file"])-1]); {
		case num(m["parent"]) != 0:
			full[i] = full[num(m["parent"])-1] + "." + str(m["name"])
		default:
			full[i] = fmt.Sprintf("d%dx%d.%s.%s", *fSeed, tr, pkg, str(m["name"]))
		}
	}
	files := make([]*descriptorpb.FileDescriptorProto, len(pkgs))
	path := func(f int) string { return fmt.Sprintf("d%dx%d/f%d.proto", *fSeed, tr, f) }
	imports := make([]map[string]bool, len(pkgs))
	for i := range pkgs {
		files[i] = &descriptorpb.FileDescriptorProto{Name: p(path(i + 1)), Syntax: p("proto3"), Options: &descriptorpb.FileOptions{GoPackage: p(fmt.Sprintf("example.com/d%dx%d/f%d", *fSeed, tr, i+1))}}
		switch str(op["go"]) {
		case "shared":
			files[i].Options.GoPackage = p(fmt.Sprintf("example.com/d%dx%d/%s", *fSeed, tr, strings.ReplaceAll(str(pkgs[i]), ".", "")))
		case "named":
			files[i].Options.GoPackage = p(fmt.Sprintf("example.com/d%dx%d/f%d;name%d", *fSeed, tr, i+1, i%2))
		}
		imports[i] = map[string]bool{}
		files[i].Package = p(fmt.Sprintf("d%dx%d.%s", *fSeed, tr, str(pkgs[i])))
	}
	// enumerations can be in a file of their own, in which there are no messages
	enums := ""
	if op["enums"] == true {
		enums = fmt.Sprintf("d%dx%d.enums.En", *fSeed, tr)
		fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: p(path(0)), Syntax: p("proto3"), Package: p(fmt.Sprintf("d%dx%d.enums", *fSeed, tr)),
			Options:  &descriptorpb.FileOptions{GoPackage: p(fmt.Sprintf("example.com/d%dx%d/enums", *fSeed, tr))},
			EnumType: []*descriptorpb.EnumDescriptorProto{{Name: p("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: p("X"), Number: p(int32(0))}, {Name: p("Y"), Number: p(int32(5))}}}}}, protoregistry.GlobalFiles)
		must(err)
		must(protoregistry.GlobalFiles.RegisterFile(fd))
	}
	mps := make([]*descriptorpb.DescriptorProto, len(msgs))
	for i, x := range msgs {
		m := x.(M)
		name := full[i][strings.LastIndex(full[i], ".")+1:]
		file := int(num(m["file"]))
		mp := &descriptorpb.DescriptorProto{Name: p(name)}
		mps[i] = mp
		// an enumeration of its own, in the message
		mp.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: p("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: p("EN_A"), Number: p(int32(0))}, {Name: p("EN_B"), Number: p(int32(1))}, {Name: p("EN_C"), Number: p(int32(-7))}}}}
		var synthetic []*descriptorpb.FieldDescriptorProto
		add := func(f *descriptorpb.FieldDescriptorProto) {
			f.Number = p(int32(len(mp.Field) + 1))
			mp.Field = append(mp.Field, f)
		}
		if str(m["serve"]) == "keyed" {
			for _, k := range [][2]string{{"the_key", docKey(op)}, {"the_index", "theIndex"}} {
				add(&descriptorpb.FieldDescriptorProto{Name: p(k[0]), JsonName: p(k[1]), Type: p(descriptorpb.FieldDescriptorProto_TYPE_STRING), Label: p(descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)})
			}
		}
		// those of a oneof are next to each other
		fields := append([]interface{}{}, list(m["fields"])...)
		sort.SliceStable(fields, func(a, b int) bool {
			return str(fields[a].(M)["card"]) != "oneof" && str(fields[b].(M)["card"]) == "oneof"
		})
		for _, y := range fields {
			f := y.(M)
			fd := &descriptorpb.FieldDescriptorProto{Name: p(str(f["name"])), JsonName: p(str(f["json"])), Type: p(kindTypes[str(f["kind"])]), Label: p(descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL)}
			switch {
			case str(f["wk"]) != "":
				fd.TypeName = p("." + str(f["wk"]))
				imp := docImports[str(f["wk"])]
				if imp == "" {
					imp = "google/protobuf/wrappers.proto"
				}
				imports[file-1][imp] = true
			case str(f["kind"]) == "msg":
				r := num(f["ref"])
				fd.TypeName = p("." + full[r-1])
				if rf := int(num(msgs[r-1].(M)["file"])); rf != file {
					imports[file-1][path(rf)] = true
				}
			case str(f["kind"]) == "enum":
				fd.TypeName = p("." + full[i] + ".En")
				if enums != "" {
					fd.TypeName = p("." + enums)
					imports[file-1][path(0)] = true
				}
			}
			switch str(f["card"]) {
			case "list":
				fd.Label = p(descriptorpb.FieldDescriptorProto_LABEL_REPEATED)
			case "oneof":
				if len(mp.OneofDecl) == 0 {
					mp.OneofDecl = append(mp.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: p("either")})
				}
				fd.OneofIndex = p(int32(0))
			case "optional":
				fd.Proto3Optional = p(true)
				synthetic = append(synthetic, fd)
			}
			add(fd)
		}
		for _, fd := range synthetic {
			fd.OneofIndex = p(int32(len(mp.OneofDecl)))
			mp.OneofDecl = append(mp.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: p("_" + fd.GetName())})
		}
		if par := num(m["parent"]); par != 0 {
			mps[par-1].NestedType = append(mps[par-1].NestedType, mp)
		} else {
			files[file-1].MessageType = append(files[file-1].MessageType, mp)
		}
	}
	for i, f := range files {
		for _, imp := range sortedSet(imports[i]) {
			f.Dependency = append(f.Dependency, imp)
		}
		fd, err := protodesc.NewFile(f, protoregistry.GlobalFiles)
		if err != nil {
			panic(fmt.Sprintf("%v in %v", err, f))
		}
		must(protoregistry.GlobalFiles.RegisterFile(fd))
	}
	for i, x := range msgs {
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(full[i]))
		must(err)
		mds = append(mds, d.(protoreflect.MessageDescriptor))
		defs = append(defs, &meta.APIDefinition{Group: fmt.Sprintf("G%d.Doc", num(x.(M)["file"])), Kind: docKind(msgs, i), ApiType: meta.APIType_StateObject})
	}
	return
}

func sortedSet(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------- what is documented and what is answered ----------

type docObject struct {
	obj meta.StateObject
	def *schema.Definition
}

// docTypes describes the messages which can be part of the objects
func docTypes(objs []docObject) []interface{} {
	seen := map[protoreflect.FullName]bool{}
	r := []interface{}{}
	var walk func(md protoreflect.MessageDescriptor)
	walk = func(md protoreflect.MessageDescriptor) {
		if seen[md.FullName()] {
			return
		}
		seen[md.FullName()] = true
		fs := []interface{}{}
		for i := 0; i < md.Fields().Len(); i++ {
			fd := md.Fields().Get(i)
			k, ref, card := fd.Kind().String(), "", "one"
			if fd.Kind() == protoreflect.MessageKind {
				k, ref = "msg", string(fd.Message().FullName())
			}
			if fd.IsList() {
				card = "list"
			}
			fs = append(fs, M{"json": fd.JSONName(), "kind": k, "card": card, "ref": ref})
		}
		r = append(r, M{"full": string(md.FullName()), "fields": fs, "inner": md.Parent() != protoreflect.Descriptor(md.ParentFile())})
		for i := 0; i < md.Fields().Len(); i++ {
			if m := md.Fields().Get(i).Message(); m != nil {
				walk(m)
			}
		}
	}
	for _, o := range objs {
		walk(o.obj.ProtoReflect().Descriptor())
	}
	return r
}

func docShape(s *openapi_v3.SchemaOrReference) M {
	r := M{"t": "?", "ref": "", "it": "", "iref": ""}
	if x := s.GetReference(); x != nil {
		r["t"], r["ref"] = "ref", strings.TrimPrefix(x.XRef, "#/components/schemas/")
		return r
	}
	x := s.GetSchema()
	if x == nil {
		return r
	}
	r["t"] = x.Type
	if it := x.GetItems(); it != nil && len(it.SchemaOrReference) == 1 {
		c := docShape(it.SchemaOrReference[0])
		r["it"], r["iref"] = c["t"], c["ref"]
	}
	return r
}

// docRead reads a document
func docRead(b []byte) (M, error) {
	d, err := openapi_v3.ParseDocument(b)
	if err != nil {
		return M{"schemas": []interface{}{}, "paths": []interface{}{}}, err
	}
	ss := []interface{}{}
	for _, s := range d.GetComponents().GetSchemas().GetAdditionalProperties() {
		ps := []interface{}{}
		for _, x := range s.Value.GetSchema().GetProperties().GetAdditionalProperties() {
			ps = append(ps, M{"json": x.Name, "s": docShape(x.Value)})
		}
		ss = append(ss, M{"name": s.Name, "props": ps})
	}
	pp := []interface{}{}
	for _, x := range d.GetPaths().GetPath() {
		it := x.Value
		ms := []interface{}{}
		for name, o := range map[string]*openapi_v3.Operation{"GET": it.Get, "PUT": it.Put, "POST": it.Post, "DELETE": it.Delete, "PATCH": it.Patch, "HEAD": it.Head, "OPTIONS": it.Options, "TRACE": it.Trace} {
			if o != nil {
				ms = append(ms, name)
			}
		}
		P := M{"path": x.Name, "methods": ms, "id": it.GetGet().GetOperationId(), "s": M{"t": "?", "ref": "", "it": "", "iref": ""}, "params": []interface{}{}}
		for _, rs := range it.GetGet().GetResponses().GetResponseOrReference() {
			if rs.Name != "200" {
				continue
			}
			for _, c := range rs.Value.GetResponse().GetContent().GetAdditionalProperties() {
				if c.Name == "application/json" {
					P["s"] = docShape(c.Value.Schema)
				}
			}
		}
		ps := []interface{}{}
		for _, q := range append(append([]*openapi_v3.ParameterOrReference{}, it.GetParameters()...), it.GetGet().GetParameters()...) {
			ps = append(ps, M{"name": q.GetParameter().GetName(), "in": q.GetParameter().GetIn(), "required": q.GetParameter().GetRequired()})
		}
		P["params"] = ps
		pp = append(pp, P)
	}
	return M{"schemas": ss, "paths": pp}, nil
}

// docJSON is what is left of an answer: a kind of value, the names and values in it
func docJSON(v interface{}) M {
	r := M{"j": "?", "n": []interface{}{}, "v": []interface{}{}}
	switch x := v.(type) {
	case nil:
		r["j"] = "null"
	case string:
		r["j"] = "string"
	case bool:
		r["j"] = "boolean"
	case json.Number:
		r["j"] = "number"
		if !strings.ContainsAny(x.String(), ".eE") {
			r["j"] = "integer"
		}
	case []interface{}:
		r["j"] = "array"
		vs := []interface{}{}
		for _, y := range x {
			vs = append(vs, docJSON(y))
		}
		r["v"] = vs
	case map[string]interface{}:
		r["j"] = "object"
		ns, vs := []interface{}{}, []interface{}{}
		for _, k := range sortedKeys(x) {
			ns, vs = append(ns, k), append(vs, docJSON(x[k]))
		}
		r["n"], r["v"] = ns, vs
	}
	return r
}

// docFill gives the fields of a message random values
func docFill(rng *rand.Rand, m protoreflect.Message, depth int, skip string) {
	fill := func(fd protoreflect.FieldDescriptor, set func(protoreflect.Value), fresh func() protoreflect.Value) {
		switch fd.Kind() {
		case protoreflect.StringKind:
			set(protoreflect.ValueOfString(pick(rng, "x", "1", "é", "\"")))
		case protoreflect.BytesKind:
			set(protoreflect.ValueOfBytes(pick(rng, []byte{1}, []byte("ab"), []byte{0xff, 0xfe})))
		case protoreflect.BoolKind:
			set(protoreflect.ValueOfBool(true))
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			set(protoreflect.ValueOfInt32(pick(rng, int32(1), -1<<31, 1<<31-1)))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			set(protoreflect.ValueOfUint32(pick(rng, uint32(1), 1<<32-1)))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			set(protoreflect.ValueOfInt64(pick(rng, int64(1), -1<<63, 1<<63-1)))
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			set(protoreflect.ValueOfUint64(pick(rng, uint64(1), 1<<64-1)))
		case protoreflect.FloatKind:
			set(protoreflect.ValueOfFloat32(pick(rng, float32(1.5), -2, 1e30)))
		case protoreflect.DoubleKind:
			set(protoreflect.ValueOfFloat64(pick(rng, 1.5, -2, 1e300)))
		case protoreflect.EnumKind:
			vs := fd.Enum().Values()
			set(protoreflect.ValueOfEnum(vs.Get(rng.Intn(vs.Len())).Number()))
		case protoreflect.MessageKind:
			v := fresh()
			c := v.Message()
			var w proto.Message
			switch c.Descriptor().FullName() {
			case "google.protobuf.Timestamp":
				w = &timestamppb.Timestamp{Seconds: int64(rng.Intn(1e9)), Nanos: int32(rng.Intn(3))}
			case "google.protobuf.Duration":
				w = &durationpb.Duration{Seconds: int64(rng.Intn(1e6)), Nanos: int32(rng.Intn(3))}
			case "google.protobuf.Any":
				a, err := anypb.New(pick[proto.Message](rng, &wrapperspb.StringValue{Value: "a"}, &meta.APIDefinition{Group: "g"}, &timestamppb.Timestamp{Seconds: 1}))
				must(err)
				w = a
			default:
				if depth > 0 {
					docFill(rng, c, depth-1, "")
				}
			}
			if w != nil {
				b, err := proto.Marshal(w)
				must(err)
				must(proto.Unmarshal(b, c.Interface()))
			}
			set(v)
		}
	}
	for i := 0; i < m.Descriptor().Fields().Len(); i++ {
		fd := m.Descriptor().Fields().Get(i)
		if fd.JSONName() == skip || fd.IsMap() || fd.Cardinality() != protoreflect.Required && chance(rng, 15) {
			continue
		}
		if fd.IsList() {
			l := m.NewField(fd).List()
			for n := rng.Intn(3); n >= 0; n-- {
				fill(fd, l.Append, l.NewElement)
			}
			m.Set(fd, protoreflect.ValueOfList(l))
			continue
		}
		fill(fd, func(v protoreflect.Value) { m.Set(fd, v) }, func() protoreflect.Value { return m.NewField(fd) })
	}
}

// docNoClient is the client of modules which are only asked what they own
type docNoClient struct{ module.Client }

func (docNoClient) SetUser(string) {}

func docModules() []module.Descriptor {
	var r []module.Descriptor
	for _, m := range []module.Module{coreruntime.NewModule(), abci.NewModule(), authn.NewModule(), rbac.NewModule(), bank.NewModule(), distribution.NewModule()} {
		r = append(r, m.Initialize(docNoClient{}))
	}
	return r
}

func docBuild(s orm.Store, objs []docObject, mods []module.Descriptor) (api http.Handler, err error, pn string) {
	pn = guarded(func() {
		b := router.NewBuilder(client.NewORMClient(s, "api"))
		for _, m := range mods {
			if err = b.CreateModuleHandlers(m); err != nil {
				return
			}
		}
		if mods == nil {
			for _, o := range objs {
				if err = b.CreateStateObjectHandler(o.obj.NewStateObject(), o.def); err != nil {
					return
				}
			}
		}
		m, err2 := b.Build()
		if err = err2; err == nil {
			api = m
		}
	})
	return
}

func docAsk(api http.Handler, path string) (code int, body []byte) {
	req := httptest.NewRequest("GET", path, nil)
	w := httptest.NewRecorder()
	if pn := guarded(func() { api.ServeHTTP(w, req) }); pn != "" {
		return 0, nil
	}
	return w.Code, w.Body.Bytes()
}

func docCase(tr int, rng *rand.Rand, op M) {
	var objs []docObject
	var mods []module.Descriptor
	if op["op"] == "modules" {
		ds := docModules()
		rng.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
		mods = ds[:1+rng.Intn(len(ds))]
		for _, d := range mods {
			for _, o := range d.StateObjects {
				objs = append(objs, docObject{o.StateObject, o.SchemaDefinition})
			}
		}
	} else {
		mds, defs := docFiles(tr, op)
		for i, x := range list(op["msgs"]) {
			o := &dynObj{Message: dynamicpb.NewMessage(mds[i]), def: defs[i]}
			switch str(x.(M)["serve"]) {
			case "single":
				objs = append(objs, docObject{o, &schema.Definition{Singleton: true}})
			case "keyed":
				objs = append(objs, docObject{o, &schema.Definition{PrimaryKey: docKey(op), SecondaryKeys: []string{"theIndex"}}})
			}
		}
		rng.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	}
	L := M{"tr": tr, "op": op["op"], "msgs": docTypes(objs), "err": "", "panic": "", "fault": "", "same": true, "answers": []interface{}{}, "schemas": []interface{}{}, "paths": []interface{}{}}
	served := []interface{}{}
	for _, o := range objs {
		d := o.obj.APIDefinition()
		base := strings.ToLower("/" + d.Group + "/" + d.Kind)
		S := M{"full": string(o.obj.ProtoReflect().Descriptor().FullName()), "single": o.def.Singleton, "pk": o.def.PrimaryKey, "item": base, "list": ""}
		if !o.def.Singleton {
			S["item"], S["list"] = base+"/{"+o.def.PrimaryKey+"}", base+"s"
		}
		served = append(served, S)
	}
	L["served"] = served
	a, b, s := newStore()
	defer closeDBs(findDBs([]interface{}{a, b}))
	for _, o := range objs {
		must(s.RegisterObject(o.obj.NewStateObject(), o.def))
	}
	api, err, pn := docBuild(s, objs, mods)
	L["panic"] = pn
	if err != nil {
		L["err"] = err.Error()
	}
	if api == nil {
		out.emit(L)
		return
	}
	code, spec := docAsk(api, "/spec")
	d, err := docRead(spec)
	for k, v := range d {
		L[k] = v
	}
	if code != 200 || err != nil {
		L["fault"] = fmt.Sprint(code, " ", err)
	}
	// the document is a function of what is served
	for i := 0; i < 3; i++ {
		api2, err2, pn2 := docBuild(s, objs, mods)
		if err2 != nil || pn2 != "" {
			L["same"] = false
			continue
		}
		_, spec2 := docAsk(api2, "/spec")
		L["same"] = L["same"].(bool) && bytes.Equal(spec, spec2)
	}
	as := []interface{}{}
	for i, o := range objs {
		S := served[i].(M)
		get := func(how, path string) {
			code, body := docAsk(api, path)
			var v interface{}
			dec := json.NewDecoder(bytes.NewReader(body))
			dec.UseNumber()
			if err := dec.Decode(&v); err != nil {
				v = nil
			}
			as = append(as, M{"path": S[how], "code": code, "v": docJSON(v)})
		}
		n := 3
		var index protoreflect.FieldDescriptor // all the objects of a list have the same
		for _, k := range o.def.SecondaryKeys {
			if fd := o.obj.ProtoReflect().Descriptor().Fields().ByJSONName(k); fd.Kind() == protoreflect.StringKind && !fd.IsList() {
				index = fd
			}
		}
		if o.def.Singleton {
			n = 1
		}
		for j := 0; j < n; j++ {
			x := o.obj.NewStateObject()
			docFill(rng, x.ProtoReflect(), 2, o.def.PrimaryKey)
			path := str(S["item"])
			if !o.def.Singleton {
				fd := x.ProtoReflect().Descriptor().Fields().ByJSONName(o.def.PrimaryKey)
				key := fmt.Sprintf("k%d", j)
				switch fd.Kind() {
				case protoreflect.StringKind:
					x.ProtoReflect().Set(fd, protoreflect.ValueOfString(key))
				case protoreflect.Uint64Kind:
					x.ProtoReflect().Set(fd, protoreflect.ValueOfUint64(uint64(j+1)))
					key = fmt.Sprint(j + 1)
				default:
					continue
				}
				path = strings.Replace(path, "{"+o.def.PrimaryKey+"}", url.PathEscape(key), 1)
			}
			if index != nil {
				x.ProtoReflect().Set(index, protoreflect.ValueOfString("i"))
			}
			must(s.Create(x))
			get("item", path)
		}
		if index != nil {
			get("list", str(S["list"])+"?start=0&end=100&selectField="+url.QueryEscape(index.JSONName()+"=i"))
		}
	}
	L["answers"] = as
	out.emit(L)
}

func runDoc(rng *rand.Rand) {
	var scripts [][]M
	n := *fN
	if *fScript != "" {
		scripts = readScripts(*fScript)
		n = len(scripts)
	}
	for tr := 1; tr <= n; tr++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		if *fOnly >= 0 && tr != *fOnly {
			continue
		}
		switch {
		case scripts != nil:
			for _, op := range scripts[tr-1] {
				docCase(tr, r, op)
			}
		case tr%8 == 1:
			docCase(tr, r, M{"op": "modules"})
		default:
			docCase(tr, r, randomDoc(r))
		}
	}
}
