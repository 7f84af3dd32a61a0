# Sourced by setup.sh and check.sh: the Go toolchain, offline.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export HOME="${HOME:-/root}"
if [ -z "$GOROOT" ] && [ -d /opt/veriftools/go1.27.3 ]; then
  export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0 TZ=UTC
