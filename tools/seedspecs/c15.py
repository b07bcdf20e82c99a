exec(open("/tmp/seeds/common.py").read())
id="go-inherited-route"; property="C15"
needs="a call of a method inherited from a base server"
breaks="the router registers inherited methods under the name of the base server, so calls do not arrive"
edits=[("pkg/golang/server.go","""		dst.Code("\\t\\t\\t\\"" + build.StringToUnderlineName(typ.Name.Name) + "/" +""","""		dst.Code("\\t\\t\\t\\"" + build.StringToUnderlineName(server.Name.Name) + "/" +""")]
files=gogen({"a.hbuf":'''package go = "a"
data Req {
	int32 x = 1
}
server Base {
	Req ping(Req req) = 1
}
server Child : Base = 1 {
	Req pong(Req req) = 1
}
'''},'''package main
import ("context";"gen/p/a";"github.com/wskfjtheqian/hbuf_golang/pkg/rpc";"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf";"errors")
type impl struct{ last string }
func (i *impl) Init(context.Context) {}
func (i *impl) Ping(ctx context.Context, req *a.Req) (*a.Req, error) { i.last = "ping"; return &a.Req{X: req.X + 1}, nil }
func (i *impl) Pong(ctx context.Context, req *a.Req) (*a.Req, error) { i.last = "pong"; return &a.Req{X: req.X + 2}, nil }
type tr struct{ s *rpc.Server }
func (t tr) Invoke(ctx context.Context, p hbuf.Data, name string, in *rpc.ClientInvoke, id int64, _ *rpc.ClientInvoke) (hbuf.Data, error) {
	b, err := in.FormData(p); if err != nil { return nil, err }
	r := t.s.Router()["/"+name]; if r == nil { return nil, errors.New("no route "+name) }
	d, err := r.ToData(b); if err != nil { return nil, err }
	o, err := r.Invoke(ctx, d); if err != nil { return nil, err }
	b, err = r.FormData(o); if err != nil { return nil, err }
	return in.ToData(b)
}
func main(){
	i := &impl{}
	s := rpc.NewServer(); s.Add(a.NewChildRouter(i))
	c := a.NewChildClient(tr{s})
	r, err := c.Ping(context.Background(), &a.Req{X: 4})
	if err != nil || r.X != 5 || i.last != "ping" { panic(err) }
	r, err = c.Pong(context.Background(), &a.Req{X: 4})
	if err != nil || r.X != 6 || i.last != "pong" { panic(err) }
}
''')
