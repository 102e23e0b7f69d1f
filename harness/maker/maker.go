//go:build go1.23

// Package main makes proto definitions of state objects and state transitions at random, has the
// code generators generate code for them, compiles it, and records what happened.
//
//	maker SEED N DIR PLUGIN GOPLUGIN REPO MODFILE
//
// In DIR it leaves: files.json (what to lay over the repository), log.ndjson.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/fdymylja/tmos/core/modulegen"
)

type M = map[string]interface{}

const base = "github.com/fdymylja/tmos/verifharness/gen/"

type field struct {
	name, kind string
	rep        bool
}

type message struct {
	name, kind string // object, transition, both, plain
	single     bool
	pk         string
	sks        []string
	fields     []field
}

type def struct {
	dir, pkg string
	msgs     []message
}

var kinds = map[string]descriptorpb.FieldDescriptorProto_Type{
	"string": descriptorpb.FieldDescriptorProto_TYPE_STRING, "bytes": descriptorpb.FieldDescriptorProto_TYPE_BYTES, "bool": descriptorpb.FieldDescriptorProto_TYPE_BOOL,
	"uint64": descriptorpb.FieldDescriptorProto_TYPE_UINT64, "int32": descriptorpb.FieldDescriptorProto_TYPE_INT32, "int64": descriptorpb.FieldDescriptorProto_TYPE_INT64,
	"uint32": descriptorpb.FieldDescriptorProto_TYPE_UINT32, "double": descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, "float": descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	"fixed64": descriptorpb.FieldDescriptorProto_TYPE_FIXED64, "sint32": descriptorpb.FieldDescriptorProto_TYPE_SINT32,
}

// as protoc does it
func jsonName(s string) string {
	var b []byte
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

func goName(s string) string {
	// the names used here need no more than this
	s = jsonName(s)
	return strings.ToUpper(s[:1]) + s[1:]
}

func p[T any](x T) *T { return &x }

func (d *def) file() *descriptorpb.FileDescriptorProto {
	f := &descriptorpb.FileDescriptorProto{Name: p("verif/" + d.dir + ".proto"), Syntax: p("proto3"), Dependency: []string{"core/modulegen/modulegen.proto"},
		Options: &descriptorpb.FileOptions{GoPackage: p(base + d.dir)}}
	if d.pkg != "" {
		f.Package = p(d.pkg)
	}
	for _, m := range d.msgs {
		x := &descriptorpb.DescriptorProto{Name: p(m.name), Options: &descriptorpb.MessageOptions{}}
		for i, fl := range m.fields {
			l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
			if fl.rep {
				l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
			}
			x.Field = append(x.Field, &descriptorpb.FieldDescriptorProto{Name: p(fl.name), JsonName: p(jsonName(fl.name)), Number: p(int32(i + 1)), Type: p(kinds[fl.kind]), Label: p(l)})
		}
		if m.kind == "object" || m.kind == "both" {
			proto.SetExtension(x.Options, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{Singleton: m.single, PrimaryKey: m.pk, SecondaryKeys: m.sks})
		}
		if m.kind == "transition" || m.kind == "both" {
			proto.SetExtension(x.Options, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		}
		f.MessageType = append(f.MessageType, x)
	}
	return f
}

func (d *def) describe() M {
	ms := []interface{}{}
	for _, m := range d.msgs {
		fs := []interface{}{}
		for _, f := range m.fields {
			fs = append(fs, M{"json": jsonName(f.name), "kind": f.kind, "rep": f.rep})
		}
		ms = append(ms, M{"name": m.name, "kind": m.kind, "single": m.single, "pk": m.pk, "fields": fs})
	}
	return M{"pkg": d.pkg, "msgs": ms}
}

// words which mean something in the generated code, and some which do not
var (
	fieldNames = []string{"id", "key", "creator", "type", "x", "opts", "new", "nil", "meta", "client", "func", "account_number", "a_b_c", "err", "iter", "obj", "range", "string",
		"error", "_spf_gen_o", "height", "msg", "true", "m2_value", "len", "interface", "v", "make", "uint64"}
	msgNames = []string{"Post", "Status", "Params", "foo_bar", "item", "Type", "X", "Range", "URL", "A1", "Address", "Bus", "news", "Opts", "Meta", "Schema", "Msg", "Func", "Iter", "New", "Nil",
		"Obj", "Err", "String", "MsgSend", "Select", "Series"}
)

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func random(r *rand.Rand, k int, wrong bool, how int) *def {
	d := &def{dir: fmt.Sprintf("p%d", k)}
	d.pkg = pick(r, "verif."+d.dir, d.dir, "a."+d.dir+".v1alpha1", "x.y_z."+d.dir)
	perm := r.Perm(len(msgNames))
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		m := message{name: msgNames[perm[i]], kind: pick(r, "object", "object", "object", "transition", "transition", "plain")}
		if i == 0 && r.Intn(4) > 0 || i == n-1 && !d.any() {
			m.kind = pick(r, "object", "object", "object", "transition")
		}
		fp := r.Perm(len(fieldNames))
		for j := 0; j < 1+r.Intn(5); j++ {
			m.fields = append(m.fields, field{name: fieldNames[fp[j]], kind: pick(r, "string", "string", "bytes", "uint64", "bool", "int32", "string", "int64"), rep: j > 0 && r.Intn(6) == 0})
		}
		if m.kind == "object" {
			if m.single = r.Intn(4) == 0; !m.single {
				m.fields[0].kind, m.fields[0].rep = pick(r, "string", "string", "bytes"), false
				m.pk = jsonName(m.fields[0].name)
				for _, f := range m.fields[1:] {
					if !f.rep && r.Intn(2) == 0 {
						m.sks = append(m.sks, jsonName(f.name))
					}
				}
				// the key need not come first
				r.Shuffle(len(m.fields), func(a, b int) { m.fields[a], m.fields[b] = m.fields[b], m.fields[a] })
			}
		}
		d.msgs = append(d.msgs, m)
	}
	if k%7 == 1 {
		for i := range d.msgs {
			d.msgs[i].kind, d.msgs[i].single, d.msgs[i].pk, d.msgs[i].sks = "plain", false, "", nil
		}
		return d
	}
	if k%7 == 2 && len(d.msgs) > 1 {
		// only the last one is of interest
		for i := range d.msgs[:len(d.msgs)-1] {
			d.msgs[i].kind, d.msgs[i].single, d.msgs[i].pk, d.msgs[i].sks = "plain", false, "", nil
		}
		if d.msgs[len(d.msgs)-1].kind == "plain" {
			d.msgs[len(d.msgs)-1].kind = "transition"
		}
	}
	if wrong {
		m := &d.msgs[r.Intn(len(d.msgs))]
		switch how {
		case 0:
			d.pkg = ""
		case 1:
			m.kind, m.single, m.pk = "both", true, ""
		case 2:
			m.kind, m.single, m.pk = "object", false, ""
		case 3:
			m.kind, m.single, m.pk = "object", false, pick(r, "nope", "Id", "id ", "9")
		case 4:
			m.fields = append(m.fields, field{name: "the_key", kind: "string"})
			m.kind, m.single, m.pk = "object", false, "the_key" // not its JSON name
		case 5:
			m.fields = append(m.fields, field{name: "odd", kind: pick(r, "bool", "uint64", "uint32", "int32", "int64", "double", "float", "fixed64", "sint32")})
			m.kind, m.single, m.pk = "object", false, "odd"
		}
	}
	return d
}

// any tells whether anything is declared in it
func (d *def) any() bool {
	for _, m := range d.msgs {
		if m.kind != "plain" {
			return true
		}
	}
	return false
}

func fixed() *def {
	return &def{dir: "p0", pkg: "verif.p0", msgs: []message{
		{name: "T0", kind: "object", pk: "k", sks: []string{"f1", "f2"}, fields: []field{{name: "k", kind: "string"}, {name: "f1", kind: "string"}, {name: "f2", kind: "string"}, {name: "p", kind: "string"}}},
		{name: "T1", kind: "object", single: true, fields: []field{{name: "p", kind: "string"}}},
		{name: "T2", kind: "object", pk: "k", fields: []field{{name: "k", kind: "string"}, {name: "p", kind: "string"}}},
		{name: "S0", kind: "transition", fields: []field{{name: "p", kind: "string"}}},
	}}
}

func run(plugin string, req []byte) (*pluginpb.CodeGeneratorResponse, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, plugin)
	cmd.Stdin = bytes.NewReader(req)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		t := strings.TrimSpace(se.String())
		if i := strings.IndexByte(t, '\n'); i > 0 {
			t = t[:i]
		}
		return nil, err.Error() + ": " + t
	}
	res := new(pluginpb.CodeGeneratorResponse)
	if err := proto.Unmarshal(so.Bytes(), res); err != nil {
		return nil, err.Error()
	}
	if res.Error != nil {
		return nil, *res.Error
	}
	return res, ""
}

// atOnce has code generated for several files at once, others being there only to be imported
func atOnce(r *rand.Rand, deps, valid []*descriptorpb.FileDescriptorProto, alone map[string]string, plugin string) M {
	req := &pluginpb.CodeGeneratorRequest{Parameter: p("paths=source_relative"), ProtoFile: append([]*descriptorpb.FileDescriptorProto{}, deps...)}
	expected, files, same := []string{}, []string{}, true
	for _, i := range r.Perm(len(valid)) {
		f := proto.Clone(valid[i]).(*descriptorpb.FileDescriptorProto)
		if n := len(req.ProtoFile); n > len(deps) && r.Intn(2) == 0 {
			f.Dependency = append(f.Dependency, req.ProtoFile[n-1].GetName())
		}
		req.ProtoFile = append(req.ProtoFile, f)
		if r.Intn(2) == 0 {
			req.FileToGenerate = append(req.FileToGenerate, f.GetName())
			expected = append(expected, strings.TrimSuffix(f.GetName(), ".proto")+".starport.go")
		}
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	L := M{"tr": 1, "op": "together", "panic": ""}
	res, why := run(plugin, b)
	if res == nil {
		L["panic"], res = why, &pluginpb.CodeGeneratorResponse{}
	}
	for _, f := range res.File {
		files = append(files, f.GetName())
		same = same && alone[f.GetName()] == f.GetContent()
	}
	sort.Strings(files)
	sort.Strings(expected)
	L["files"], L["expected"], L["same"] = files, expected, same
	return L
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	dir, plugin, goplugin, repo, modfile := os.Args[3], os.Args[4], os.Args[5], os.Args[6], os.Args[7]
	r := rand.New(rand.NewSource(seed))
	overlay := M{}
	lay := func(name string, content []byte) {
		local := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(local, content, 0o600); err != nil {
			panic(err)
		}
		overlay[filepath.Join(repo, "verifharness", name)] = local
	}
	deps := []*descriptorpb.FileDescriptorProto{protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto),
		protodesc.ToFileDescriptorProto(modulegen.File_core_modulegen_modulegen_proto)}
	type result struct {
		d     *def
		L     M
		built bool
	}
	var all []*result
	alone := map[string]string{}
	var valid []*descriptorpb.FileDescriptorProto
	for k := 0; k <= n; k++ {
		d := fixed()
		if k > 0 {
			d = random(r, k, k%3 == 0, k/3%6)
		}
		f := d.file()
		// the definition itself has to be one
		var names = map[string]bool{}
		for _, m := range d.msgs {
			if names[goName(m.name)] {
				panic("the same name twice")
			}
			names[goName(m.name)] = true
		}
		req, err := proto.Marshal(&pluginpb.CodeGeneratorRequest{FileToGenerate: []string{f.GetName()}, Parameter: p("paths=source_relative"), ProtoFile: append(append([]*descriptorpb.FileDescriptorProto{}, deps...), f)})
		if err != nil {
			panic(err)
		}
		res, why := run(plugin, req)
		x := &result{d: d, L: M{"tr": 1, "op": "generate", "def": d.describe(), "accepted": res != nil, "why": why, "compiled": false, "files": 0}}
		all = append(all, x)
		if res == nil {
			continue
		}
		x.L["files"] = len(res.File)
		if d.any() {
			for _, o := range res.File {
				alone[o.GetName()] = o.GetContent()
			}
			valid = append(valid, f)
		}
		gres, why := run(goplugin, req)
		if gres == nil {
			panic("protoc-gen-go: " + why)
		}
		for _, o := range append(gres.File, res.File...) {
			lay("gen/"+d.dir+"/"+filepath.Base(o.GetName()), []byte(o.GetContent()))
		}
		// what is expected to be there, to be used by the harness
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"google.golang.org/protobuf/proto\"\n\n\tverifclient \"github.com/fdymylja/tmos/runtime/client\"\n\tverifschema \"github.com/fdymylja/tmos/runtime/orm/schema\"\n)\n\n", d.dir)
		var msgs, schemas []string
		for _, m := range d.msgs {
			if m.kind != "plain" {
				msgs = append(msgs, "&"+goName(m.name)+"{}")
			}
			if m.kind == "object" {
				schemas = append(schemas, fmt.Sprintf("%q: %sSchema", m.name, goName(m.name)))
			}
		}
		if !d.any() {
			continue
		}
		fmt.Fprintf(&b, "func VerifNew(c verifclient.Client) interface{} { return NewClientSet(c) }\n\nfunc VerifMsgs() []proto.Message { return []proto.Message{%s} }\n\nfunc VerifSchemas() map[string]*verifschema.Definition { return map[string]*verifschema.Definition{%s} }\n",
			strings.Join(msgs, ", "), strings.Join(schemas, ", "))
		lay("gen/"+d.dir+"/verif.go", []byte(b.String()))
		x.built = true
	}
	together := []M{}
	for i := 0; i < 6; i++ {
		together = append(together, atOnce(r, deps, valid, alone, plugin))
	}
	write := func(name string, v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o600); err != nil {
			panic(err)
		}
	}
	write("try.json", M{"Replace": overlay})
	args := []string{"build", "-modfile", modfile, "-overlay", filepath.Join(dir, "try.json"), "-gcflags=-e"}
	for _, x := range all {
		if x.built {
			args = append(args, "./verifharness/gen/"+x.d.dir)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	o, err := cmd.CombinedOutput()
	failed := map[string]string{}
	if err != nil {
		cur := ""
		for _, l := range strings.Split(string(o), "\n") {
			if m := regexp.MustCompile(`^# ` + base + `(p\d+)`).FindStringSubmatch(l); m != nil {
				cur = m[1]
			} else if cur != "" && failed[cur] == "" {
				failed[cur] = l
			} else if m := regexp.MustCompile(`gen[_/](p\d+)[_/].*`).FindStringSubmatch(l); cur == "" && m != nil {
				failed[m[1]] = l // does not even parse
			}
		}
		if len(failed) == 0 {
			fmt.Fprintln(os.Stderr, string(o))
			os.Exit(2)
		}
	}
	var reg, imports strings.Builder
	var log bytes.Buffer
	for _, x := range all {
		if x.built {
			x.L["compiled"] = failed[x.d.dir] == ""
			if failed[x.d.dir] == "" {
				fmt.Fprintf(&imports, "\t%q\n", base+x.d.dir)
				fmt.Fprintf(&reg, "\ttypedPkgs = append(typedPkgs, typedPkg{%q, %s.VerifNew, %s.VerifMsgs(), %s.VerifSchemas()})\n", x.d.dir, x.d.dir, x.d.dir, x.d.dir)
			} else {
				x.L["why"] = failed[x.d.dir]
				for k := range overlay {
					if strings.Contains(k, "/gen/"+x.d.dir+"/") {
						delete(overlay, k)
					}
				}
			}
		}
		b, _ := json.Marshal(x.L)
		log.Write(append(b, '\n'))
	}
	for _, L := range together {
		b, _ := json.Marshal(L)
		log.Write(append(b, '\n'))
	}
	lay("typed_reg.go", []byte("//go:build go1.23\n\npackage main\n\nimport (\n"+imports.String()+")\n\nfunc init() {\n"+reg.String()+"}\n"))
	write("files.json", overlay)
	if err := os.WriteFile(filepath.Join(dir, "log.ndjson"), log.Bytes(), 0o600); err != nil {
		panic(err)
	}
}
