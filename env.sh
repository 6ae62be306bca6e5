# environment of every build and run of the framework; sourced
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMCHECK=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=$(command -v go)
export PATH="$(dirname "$GO"):$PATH"
