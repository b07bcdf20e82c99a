exec(open("/tmp/seeds/common.py").read())
id="go-router-shared-request"; property="C31"
needs="two calls of one method through one router, where the second leaves out what the first has (a map's key, say)"
breaks="a Go router reads every request of a method into one object, so that what an earlier call held is still there"
edits=[("pkg/golang/server.go","""		dst.Code("\\t\\t\\t\\tToData: func(buf []byte) (hbuf.Data, error) {\\n")
		dst.Code("\\t\\t\\t\\t\\tvar req ")
		b.printType(dst, method.Param, true)
		dst.Code("\\n")
""","""		dst.Code("\\t\\t\\t\\tToData: func(req ")
		b.printType(dst, method.Param, true)
		dst.Code(") func(buf []byte) (hbuf.Data, error) {\\n\\t\\t\\t\\treturn func(buf []byte) (hbuf.Data, error) {\\n")
"""),("pkg/golang/server.go","""		dst.Code("\\t\\t\\t\\t\\treturn &req, json.Unmarshal(buf, &req)\\n")
		dst.Code("\\t\\t\\t\\t},\\n")
""","""		dst.Code("\\t\\t\\t\\t\\treturn &req, json.Unmarshal(buf, &req)\\n")
		dst.Code("\\t\\t\\t\\t}\\n\\t\\t\\t\\t}(")
		b.printType(dst, method.Param, true)
		dst.Code("{}),\\n")
""")]
files=gogen({"a.hbuf":'''package go = "a"
data Req {
	int32<string> counts = 1
}
server Box {
	Req echo(Req req) = 1
}
'''},'''package main
import ("context";"gen/p/a")
type impl struct{ got []int }
func (i *impl) Init(context.Context) {}
func (i *impl) Echo(ctx context.Context, req *a.Req) (*a.Req, error) { i.got = append(i.got, len(req.Counts)); return req, nil }
func main(){
	i := &impl{}
	in := a.NewBoxRouter(i).GetInvoke()["box/echo"]
	for _, s := range []string{`{"counts":{"a":1,"b":2}}`, `{"counts":{"c":3}}`, `{}`} {
		d, err := in.ToData([]byte(s)); if err != nil { panic(err) }
		if _, err = in.Invoke(context.Background(), d); err != nil { panic(err) }
	}
	if len(i.got) != 3 || i.got[0] != 2 || i.got[1] != 1 || i.got[2] != 0 { panic(i.got) }
}
''')
