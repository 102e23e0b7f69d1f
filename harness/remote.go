//go:build go1.23

package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/spf13/cobra"
	"github.com/tendermint/tendermint/abci/types"
	hexbytes "github.com/tendermint/tendermint/libs/bytes"
	"github.com/tendermint/tendermint/libs/log"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	rpcserver "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	"google.golang.org/protobuf/encoding/prototext"

	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/client"
	"github.com/fdymylja/tmos/pkg/spfcli"
	"github.com/fdymylja/tmos/runtime"
)

// node is a tendermint node as far as queries are concerned: its RPC server,
// in front of the application's querier
type node struct {
	srv   *httptest.Server
	q     *runtime.Querier
	conf  string // directory with the configuration of the command line
	cl    client.Client
	cli   *cobra.Command
	heads int
}

var theNode *node

func nodeFor(q *runtime.Querier) *node {
	if theNode == nil {
		n := &node{}
		mux := http.NewServeMux()
		rpcserver.RegisterRPCFuncs(mux, map[string]*rpcserver.RPCFunc{
			"abci_query": rpcserver.NewRPCFunc(func(_ *rpctypes.Context, path string, data hexbytes.HexBytes, height int64, prove bool) (*ctypes.ResultABCIQuery, error) {
				return &ctypes.ResultABCIQuery{Response: n.q.Handle(types.RequestQuery{Path: path, Data: data, Height: height, Prove: prove})}, nil
			}, "path,data,height,prove"),
		}, log.NewNopLogger())
		n.srv = httptest.NewServer(mux)
		theNode = n
	}
	if theNode.q != q {
		theNode.q, theNode.cl, theNode.cli = q, nil, nil
	}
	return theNode
}

// configured makes the configuration directory of the command line
func configured(what, endpoint string) string {
	dir, err := os.MkdirTemp("", "verif-spfcli")
	if err != nil {
		panic(err)
	}
	write := func(s string) {
		if err := os.WriteFile(filepath.Join(dir, "config.yaml"), []byte(s), 0o600); err != nil {
			panic(err)
		}
	}
	switch what {
	case "up":
		write("tendermintRPC: " + endpoint + "\n")
	case "no-config":
	case "empty-config":
		write("")
	case "other-config":
		write("rpc: " + endpoint + "\n")
	case "not-yaml":
		write("tendermintRPC: [\n")
	case "bad-endpoint":
		write("tendermintRPC: \"::nope\"\n")
	case "refused":
		write("tendermintRPC: http://127.0.0.1:1\n")
	}
	return dir
}

var nodeStates = []string{"no-config", "empty-config", "other-config", "not-yaml", "bad-endpoint", "refused"}

// remote asks through the client library or the command line
func (e *queryEnv) remote(op M) {
	L := M{"tr": e.tr, "op": "remote", "t": "", "k": "", "got": M{}, "seen": []interface{}{}, "code": 0}
	for k, v := range op {
		L[k] = v
	}
	var t *storeType
	id := ""
	if str(op["t"]) != "" {
		t = e.typ(str(op["t"]))
		if id = str(op["k"]); id != "?" {
			id = string(e.idOf(t, id).Bytes())
		}
		if !utf8.ValidString(id) {
			return // cannot be written in JSON, or on a command line
		}
	}
	n := nodeFor(e.q)
	how, state := str(op["how"]), str(op["node"])
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var err error
	var value []byte
	var res *runtimev1alpha1.Resources
	run := func() {
		switch op["via"] {
		case "rpc":
			cl := n.cl
			switch {
			case state == "bad-endpoint":
				cl, err = client.NewRPC("::nope")
			case state != "up":
				cl, err = client.NewRPC("http://127.0.0.1:1")
			case cl == nil:
				cl, err = client.NewRPC(n.srv.URL)
				n.cl = cl
			}
			if err != nil {
				return
			}
			if how == "resources" {
				res, err = cl.Resources(ctx)
			} else {
				value, err = cl.Get(ctx, t.def.Group, t.def.Kind, id)
			}
		case "cli":
			dir := configured(state, n.srv.URL)
			defer os.RemoveAll(dir)
			os.Setenv(spfcli.ConfigDirectoryEnv, dir)
			cmd := spfcli.NewCLI()
			args := []string{"resources"}
			switch how {
			case "get":
				args = []string{"get", "--", t.def.Group, t.def.Kind, id}
			case "usage":
				args = append([]string{str(op["verb"]), "--"}, []string{t.def.Group, t.def.Kind, id}[:num(op["args"])]...)
			}
			so, se := new(bytes.Buffer), new(bytes.Buffer)
			cmd.SetOut(so)
			cmd.SetErr(se)
			cmd.SetArgs(args)
			err = cmd.Execute()
			text := so.String()
			if text == "" {
				text = se.String()
			}
			if err != nil {
				return
			}
			value = []byte(text)
			if how == "resources" {
				res = new(runtimev1alpha1.Resources)
				if err2 := prototext.Unmarshal(value, res); err2 != nil {
					L["got"] = M{"unreadable": text}
				}
			}
		}
	}
	L["panic"] = guarded(run)
	if err != nil {
		L["code"] = 1
		if how != "usage" && state == "up" && strings.Contains(err.Error(), "Timeout") {
			panic(fmt.Sprint("the query took too long: ", err))
		}
	} else if L["panic"] == "" {
		switch how {
		case "get":
			L["got"] = t.fromJSON(value)
		case "resources":
			names := []interface{}{}
			for _, g := range res.GetApiGroupResources() {
				for _, k := range g.StateObjects {
					names = append(names, g.ApiGroup+"|"+k)
				}
			}
			L["seen"] = names
		}
	}
	L["post"], L["dig"] = e.read(e.s), e.dig()
	out.emit(L)
}

func (e *queryEnv) randomRemote(t *storeType) M {
	rng := e.rng
	op := M{"op": "remote", "via": pick(rng, "rpc", "rpc", "cli"), "node": "up", "t": t.name, "how": "get", "k": e.stored(t)}
	switch n := rng.Intn(100); {
	case n < 72:
		if t.sch.Singleton && chance(rng, 20) {
			op["k"] = "?"
		}
	case n < 84:
		op["how"], op["t"] = "resources", ""
		delete(op, "k")
	case n < 92:
		op["via"], op["how"] = "cli", "usage"
		op["verb"], op["args"] = "get", rng.Intn(3)
		if chance(rng, 30) {
			op["verb"], op["args"] = "resources", 1+rng.Intn(3)
		}
	default:
		op["node"] = pick(rng, nodeStates...)
		if chance(rng, 40) {
			op["how"], op["t"] = "resources", ""
			delete(op, "k")
		}
	}
	return op
}
