// Package otel is a stand-in for the OpenTelemetry API.
package otel

import "go.opentelemetry.io/otel/trace"

var provider trace.TracerProvider

func SetTracerProvider(p trace.TracerProvider) { provider = p }
func GetTracerProvider() trace.TracerProvider  { return provider }
func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return provider.Tracer(name, opts...)
}
