// Package trace is a stand-in for the OpenTelemetry API.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type SpanConfig struct {
	Attributes []attribute.KeyValue
	Kind       SpanKind
	NewRoot    bool
}
type SpanKind int

const (
	SpanKindUnspecified SpanKind = iota
	SpanKindInternal
	SpanKindServer
	SpanKindClient
	SpanKindProducer
	SpanKindConsumer
)

type Option func(*SpanConfig)
type SpanStartOption = Option
type SpanEndOption = Option
type EventOption = Option
type SpanStartEventOption = Option
type TracerOption func()

func WithAttributes(a ...attribute.KeyValue) Option {
	return func(c *SpanConfig) { c.Attributes = append(c.Attributes, a...) }
}
func WithSpanKind(k SpanKind) Option { return func(c *SpanConfig) { c.Kind = k } }
func WithNewRoot() Option            { return func(c *SpanConfig) { c.NewRoot = true } }
func WithStackTrace(bool) Option     { return func(c *SpanConfig) {} }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
	TracerProvider() TracerProvider
}

type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type key struct{}

func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, key{}, s)
}
func SpanFromContext(ctx context.Context) Span {
	s, _ := ctx.Value(key{}).(Span)
	return s
}
