//go:build go1.23

// Package main is the conformance harness: it drives the real code with scripted
// or randomly generated operations and records what happened, one JSON object per
// line, for TLC to judge against the TLA+ specification in /verif/spec.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/dgraph-io/badger/v3"
	"golang.org/x/crypto/ripemd160"
	"k8s.io/klog/v2"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
)

// M is a JSON object
type M = map[string]interface{}

type sink struct {
	f *os.File
	w *bufio.Writer
	n int
}

func (s *sink) emit(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.n++
}

var out *sink

var (
	fSeed   = flag.Int64("seed", 1, "random seed")
	fN      = flag.Int("n", 10, "number of random traces")
	fLen    = flag.Int("len", 30, "operations per trace")
	fOut    = flag.String("out", "", "trace file")
	fScript = flag.String("script", "", "script file (JSON list of operations per line)")
	fOnly   = flag.Int("only", -1, "run only this trace")
	fKind   = flag.String("kind", "", "sub kind of the family")
	fBudget = flag.Duration("budget", 10*time.Minute, "stop starting new traces after this long")
)

type family func(rng *rand.Rand)

var families = map[string]family{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness FAMILY [flags]")
		os.Exit(2)
	}
	fam := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	fs := flag.NewFlagSet("klog", flag.ContinueOnError)
	klog.InitFlags(fs)
	fs.Set("logtostderr", "false")
	fs.Set("alsologtostderr", "false")
	fs.Set("stderrthreshold", "FATAL")
	klog.SetOutput(devnull{})
	debug.SetGCPercent(200)
	f, err := os.Create(*fOut)
	if err != nil {
		panic(err)
	}
	out = &sink{f: f, w: bufio.NewWriterSize(f, 1<<20)}
	run, ok := families[fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", fam)
		os.Exit(2)
	}
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	go watch()
	run(rand.New(rand.NewSource(*fSeed)))
	out.w.Flush()
	f.Close()
	fmt.Printf("events %d\n", out.n)
}

type devnull struct{}

func (devnull) Write(p []byte) (int, error) { return len(p), nil }

// ---------- finding the databases of a runtime ----------

var badgerT = reflect.TypeOf((*badger.DB)(nil))

// findDBs walks everything reachable from v and returns the badger databases,
// in the order they are found. It depends on no field name of the code under test.
func findDBs(v interface{}) []*badger.DB {
	seen := map[uintptr]bool{}
	var dbs []*badger.DB
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 14 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			p := v.Pointer()
			if v.Type() == badgerT {
				db := (*badger.DB)(unsafe.Pointer(p))
				for _, d := range dbs {
					if d == db {
						return
					}
				}
				dbs = append(dbs, db)
				return
			}
			if seen[p] {
				return
			}
			seen[p] = true
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if !strings.Contains(v.Type().PkgPath(), "fdymylja/tmos") && v.Type().PkgPath() != "main" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len() && i < 64; i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return dbs
}

type kvPair struct{ k, v []byte }

func dumpDB(db *badger.DB) []kvPair {
	var r []kvPair
	err := db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, err := it.Item().ValueCopy(nil)
			if err != nil {
				return err
			}
			r = append(r, kvPair{it.Item().KeyCopy(nil), v})
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	return r
}

// digest hashes the whole raw content of the databases; keys for which skip returns
// true are left out.
func digest(dbs []*badger.DB, skip func(k []byte) bool) string {
	h := sha256.New()
	for i, db := range dbs {
		for _, p := range dumpDB(db) {
			if skip != nil && skip(p.k) {
				continue
			}
			fmt.Fprintf(h, "%d:%d:%d:", i, len(p.k), len(p.v))
			h.Write(p.k)
			h.Write(p.v)
		}
	}
	return hex.EncodeToString(h.Sum(nil)[:6])
}

func closeDBs(dbs []*badger.DB) {
	for _, db := range dbs {
		_ = db.Close()
	}
}

// ---------- keys ----------

type key struct {
	priv *secp256k1.PrivKey
	addr string
	name string
	pk   []byte // protobuf encoding of the public key
}

func newKey(i int) *key {
	seed := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", i)))
	priv := &secp256k1.PrivKey{Key: seed[:]}
	pub := priv.PubKey().Bytes()
	s := sha256.Sum256(pub)
	r := ripemd160.New()
	r.Write(s[:])
	addr, err := bech32.ConvertAndEncode("test", r.Sum(nil))
	if err != nil {
		panic(err)
	}
	return &key{priv: priv, addr: addr, name: fmt.Sprintf("k%d", i), pk: append([]byte{0x0a, 33}, pub...)}
}

// ---------- small helpers ----------

// rel maps v to a small integer relative to base, or to a sentinel when it is far away
func rel(v, base uint64) int64 {
	if v >= base && v-base > 1<<30 {
		return 1 << 30
	}
	if v < base && base-v > 1<<30 {
		return -1 << 30
	}
	return int64(v - base)
}

// clamp keeps numbers within what TLC can represent
func clamp(d int64) int64 {
	if d > 1<<30 {
		return 1 << 30
	}
	if d < -(1 << 30) {
		return -1 << 30
	}
	return d
}

func sortedKeys(m M) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.Intn(len(xs))] }

func chance(rng *rand.Rand, percent int) bool { return rng.Intn(100) < percent }

// guarded runs f and reports the panic it raised, if any
func guarded(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v", r)
			if len(panicked) > 200 {
				panicked = panicked[:200]
			}
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	atomic.StoreInt64(&busySince, time.Now().UnixNano())
	defer atomic.StoreInt64(&busySince, 0)
	f()
	return ""
}

var busySince int64

// watch ends the process when a single call does not return
func watch() {
	for {
		time.Sleep(time.Second)
		if t := atomic.LoadInt64(&busySince); t != 0 && time.Since(time.Unix(0, t)) > 60*time.Second {
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "fatal error: a call does not return\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// readScripts reads one JSON list of operations per line
func readScripts(path string) [][]M {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var r [][]M
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(strings.TrimSpace(sc.Text())) == 0 {
			continue
		}
		var ops []M
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			panic(err)
		}
		r = append(r, ops)
	}
	return r
}

func num(v interface{}) int64 {
	switch x := v.(type) {
	case nil:
		return 0
	case float64:
		return int64(x)
	case int:
		return int64(x)
	case int64:
		return x
	}
	panic(fmt.Sprintf("not a number: %#v", v))
}

func str(v interface{}) string {
	if v == nil {
		return ""
	}
	return v.(string)
}

func boolean(v interface{}) bool {
	b, _ := v.(bool)
	return b
}

func list(v interface{}) []interface{} {
	if v == nil {
		return nil
	}
	return v.([]interface{})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
