# Environment of every command of this framework: the toolchain and the
# module cache of /opt/vp/build.sh, offline.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTRACEBACK=all
