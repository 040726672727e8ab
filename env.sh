# Go environment for everything in /verif (offline, the toolchain /repo is built with).
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOENV=off GOFLAGS= GOPROXY=off GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOPACKAGESDRIVER GOOS GOARCH
