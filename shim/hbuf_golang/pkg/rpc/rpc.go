// Package rpc is a stand-in for the rpc runtime: the same interfaces and route
// composition as hbuf_golang v1.0.12, with tags of several values.
package rpc

import (
	"context"
	"encoding/json"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type Context struct {
	context.Context
	Tags [][]string // every SetTag call, in order
}

type ctxKey struct{}

func NewContext(ctx context.Context) *Context { return &Context{Context: ctx} }

func (c *Context) Value(key any) any {
	if key == (ctxKey{}) {
		return c
	}
	return c.Context.Value(key)
}

func SetTag(ctx context.Context, key string, values ...string) {
	if c, ok := ctx.Value(ctxKey{}).(*Context); ok {
		c.Tags = append(c.Tags, append([]string{key}, values...))
	}
}

type ServerClient interface {
	GetName() string
	GetId() uint32
}

type Init interface {
	Init(ctx context.Context)
}

type ServerRouter interface {
	GetName() string
	GetId() uint32
	GetInvoke() map[string]*ServerInvoke
	GetServer() Init
}

type Client interface {
	Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error)
}

type ClientInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
}

type ServerInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
	Invoke   func(cxt context.Context, data hbuf.Data) (hbuf.Data, error)
	SetInfo  func(cxt context.Context)
}

type Server struct{ routes map[string]*ServerInvoke }

func NewServer() *Server { return &Server{map[string]*ServerInvoke{}} }

func (s *Server) Router() map[string]*ServerInvoke { return s.routes }

func (s *Server) Add(router ServerRouter) {
	for key, value := range router.GetInvoke() {
		s.routes["/"+router.GetName()+"/"+key] = value
	}
}

type Result struct {
	Code int             `json:"code"`
	Msg  string          `json:"msg"`
	Data json.RawMessage `json:"data"`
}

func (r *Result) Error() string { return r.Msg }
