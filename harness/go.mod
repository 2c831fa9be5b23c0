module github.com/chronos-tachyon/morehttp/zverif

go 1.23

require (
	github.com/chronos-tachyon/morehttp v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/chronos-tachyon/morehttp => /repo


require (
	github.com/chronos-tachyon/assert v1.2.0
	github.com/chronos-tachyon/bufferpool v1.0.0
	github.com/chronos-tachyon/enumhelper v1.2.0
	github.com/prometheus/client_golang v1.11.0
	google.golang.org/protobuf v1.27.1
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/cespare/xxhash/v2 v2.1.1 // indirect
	github.com/golang/protobuf v1.5.0 // indirect
	github.com/hashicorp/errwrap v1.0.0 // indirect
	github.com/hashicorp/go-multierror v1.1.1 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/prometheus/client_model v0.2.0 // indirect
	github.com/prometheus/common v0.26.0 // indirect
	github.com/prometheus/procfs v0.6.0 // indirect
	golang.org/x/sys v0.0.0-20210603081109-ebe580a85c40 // indirect
)
