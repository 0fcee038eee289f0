# toolchain used to build the analyser and to resolve /repo (offline)
for d in /opt/veriftools/go1.27.3 /opt/veriftools/go1.26.10; do
  if [ -x "$d/bin/go" ]; then export PATH="$d/bin:$PATH"; break; fi
done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB=* GONOSUMCHECK=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
unset GOROOT
