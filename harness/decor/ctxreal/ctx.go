package main

import "context"

type ctxKey struct{}

func newCtx(tag int) Ctx { return context.WithValue(context.Background(), ctxKey{}, tag) }
func ctxTag(c Ctx) any   { return c.Value(ctxKey{}) }
func ctxErr(c Ctx) error { return c.Err() }
