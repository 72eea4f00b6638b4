module verif/harness

go 1.26.0

require (
	github.com/bazelbuild/buildtools v0.0.0
	github.com/golang/protobuf v1.5.0
	go.starlark.net v0.0.0-20210223155950-e043a3d3c984
)

require (
	golang.org/x/sys v0.49.0 // indirect
	google.golang.org/protobuf v1.33.0 // indirect
)

replace github.com/bazelbuild/buildtools => /repo
