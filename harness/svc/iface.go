package svc

import "context"

// Svc has one method of every shape.
type Svc interface {
	CtxErr(ctx context.Context, a int, b string) (r1 int, err error)
	CtxErrVar(ctx context.Context, xs ...string) (int, string, error)
	CtxOnlyErr(ctx context.Context) error
	CtxNoErr(ctx context.Context, a int) int
	CtxNoRes(ctx context.Context)
	Err(a int) (string, error)
	ErrOnly() error
	ErrVar(p string, xs ...int) (n int, err error)
	Plain(a int, b int) (x int, y string)
	PlainVar(p string, xs ...int) int
	NoRes(a int)
	Nothing()
}
