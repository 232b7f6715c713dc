# sourced: an offline Go environment of fixed shape
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOFLAGS="-mod=mod -buildvcs=false"
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
