package main

import "vrt/vctx"

type ctxKey struct{}

func newCtx(tag int) Ctx { return vctx.WithValue(vctx.Background(), ctxKey{}, tag) }
func ctxTag(c Ctx) any   { return c.Value(ctxKey{}) }
func ctxErr(c Ctx) error { return vctx.PeekErr(c) }
