module go.opentelemetry.io/otel

go 1.21
