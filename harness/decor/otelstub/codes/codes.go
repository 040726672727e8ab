// Package codes is a stand-in for the OpenTelemetry API (not installed here).
package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
