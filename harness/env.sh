export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \
    GOCACHE=/root/.cache/go-build GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOFLAGS=-mod=mod
unset DSKETCH_TEST_GENERATE_GO
