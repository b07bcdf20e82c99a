exec(open("/tmp/seeds/common.py").read())
id="go-strict-reply"; property="C35"
needs="a reply written by a server that runs a later version of the schema, with a member the client does not know"
breaks="Go clients read replies strictly: a member added to a result type makes every client of the earlier version fail"
edits=[("pkg/golang/server.go",'''			b.printType(dst, method.Result.Type(), true)
			dst.Code("\\n")
			dst.Code("\\t\\t\\treturn &req, json.Unmarshal(buf, &req)\\n")
''','''			b.printType(dst, method.Result.Type(), true)
			dst.Code("\\n")
			dst.Import("bytes", "")
			dst.Code("\\t\\t\\tdec := json.NewDecoder(bytes.NewReader(buf))\\n")
			dst.Code("\\t\\t\\tdec.DisallowUnknownFields()\\n")
			dst.Code("\\t\\t\\treturn &req, dec.Decode(&req)\\n")
''')]
files=gogen({"a.hbuf":'''package go = "a"
data Req {
	int32 n = 1
}
server Box {
	Req echo(Req req) = 1
}
'''},'''package main

import (
	"context"
	"gen/p/a"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type conn struct{}

func (conn) Invoke(ctx context.Context, data hbuf.Data, name string, in *rpc.ClientInvoke, id int64, sub *rpc.ClientInvoke) (hbuf.Data, error) {
	return in.ToData([]byte(`{"n":7,"added":{"x":[1]}}`))
}

func main() {
	ret, err := a.NewBoxClient(conn{}).Echo(context.Background(), &a.Req{N: 1})
	if err != nil {
		panic(err)
	}
	if ret.N != 7 {
		panic(ret.N)
	}
}
''')
