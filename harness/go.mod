module vp.local/harness

go 1.22

require (
	google.golang.org/grpc v1.62.1
	google.golang.org/protobuf v1.33.0
)
