package manage

import (
	"context"

	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type Manage interface {
	Get(router rpc.ServerClient) any
}

type key struct{}

func With(ctx context.Context, m Manage) context.Context { return context.WithValue(ctx, key{}, m) }

func GET(ctx context.Context) Manage {
	m, _ := ctx.Value(key{}).(Manage)
	return m
}
