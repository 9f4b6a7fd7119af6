export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
