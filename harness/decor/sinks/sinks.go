package main

import (
	"io"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"

	"context"
)

// setup gives every execution fresh global state.
func setup(d Dec) {
	reg := prometheus.NewRegistry()
	prometheus.DefaultRegisterer, prometheus.DefaultGatherer = reg, reg
	otel.SetTracerProvider(noopProvider{})
	d.Reset()
}

func quietLogrus() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.TraceLevel)
	l.ExitFunc = func(int) { panic("logrus exit") }
	return logrus.NewEntry(l)
}

type noopProvider struct{}
type noopTracer struct{}
type noopSpan struct{}

func (noopProvider) Tracer(string, ...trace.TracerOption) trace.Tracer { return noopTracer{} }
func (noopTracer) Start(ctx context.Context, n string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	return trace.ContextWithSpan(ctx, noopSpan{}), noopSpan{}
}
func (noopSpan) End(...trace.SpanEndOption)              {}
func (noopSpan) AddEvent(string, ...trace.EventOption)   {}
func (noopSpan) IsRecording() bool                       { return false }
func (noopSpan) RecordError(error, ...trace.EventOption) {}
func (noopSpan) SetStatus(codes.Code, string)            {}
func (noopSpan) SetName(string)                          {}
func (noopSpan) SetAttributes(...attribute.KeyValue)     {}
func (noopSpan) TracerProvider() trace.TracerProvider    { return noopProvider{} }
