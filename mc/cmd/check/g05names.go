package main

// g05Names are the identifiers of the code the hosted templates generate, and of what they import.
const g05Names = `
Add AddAttributes AddUint64 After BoolAttribute C CaptureError Context Debug Done Duration End Entry Err Error Errorf Fields Finish Help
InternalErrorWith InvalidArgument Is Join Lock LogFields Logger LstdFlags M1Timeout Marshal MaxAge Minute MustNewSvcRoundRobinPool Name New
NewError NewSummaryVec NewSvcAPMTracing NewSvcPool NewSvcRoundRobinPool NewSvcWithCircuitBreaker NewSvcWithFallback NewSvcWithGRPCValidation
NewSvcWithLog NewSvcWithLogrus NewSvcWithPrometheus NewSvcWithRateLimit NewSvcWithRetry NewSvcWithTimeout NewSvcWithTracing
NewSvcWithTwirpError NewSvcWithTwirpValidation NewSvcWithValidation NewTicker Now Objectives Observe Println RLock RUnlock RWMutex
RecordError Second Seconds Send Set SetAttributes SetLabel SetStatus Since Span SpanData Start StartSpan StartSpanFromContext Stop String
StringAttribute SummaryOpts Svc SvcAPMTracing SvcAPMTracingOption SvcAPMTracingWithSpanType SvcAPMTracingWithUsingSetLabel SvcPool
SvcRoundRobinPool SvcWithCircuitBreaker SvcWithFallback SvcWithGRPCValidation SvcWithLog SvcWithLogrus SvcWithPrometheus SvcWithRateLimit
SvcWithRetry SvcWithTimeout SvcWithTimeoutConfig SvcWithTracing SvcWithTwirpError SvcWithTwirpValidation SvcWithValidation Tick Time Tracer
Unlock Validate WithCancel WithFields WithLabelValues WithMeta WithTimeout Writer apm append atomic attribute base burst cancelFunc
captureError close closesAt codes config consecutiveErrors context counter ctx d delay endSpan err error errors ext float64 fmt fn
grpc_codes grpc_status i ignoreErrors implementations impls injectRequestDataToError instance instanceName int interval io json jsonReq key
len log logrus make name nil now ok openInterval opentracing opts otel panic params perr pool poolSize promauto prometheus r rand req result
results retryCount retryInterval rps setLabel span spanDecorator spanType startSpan status stderr stdout string strings
svcDurationSummaryVec sync t time trace true twerr twirp uint64 v value
`
