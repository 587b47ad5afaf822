module verif/harness

go 1.24.11

toolchain go1.24.13

require (
	github.com/apache/datasketches-go v0.0.0
	github.com/twmb/murmur3 v1.1.8
)

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0 // indirect
)

replace github.com/apache/datasketches-go => /repo
