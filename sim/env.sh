export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOEXPERIMENT=nosizespecializedmalloc
export CGO_ENABLED=0
unset GODEBUG GOENV
REPO=${VERIF_REPO:-/repo}
BUILD=${VERIF_BUILD:-/verif/build}
export GOCACHE=${VERIF_GOCACHE:-$BUILD/gocache}
