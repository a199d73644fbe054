# the Go environment of every script here: offline, nothing tracked is written in /repo
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
  export PATH=/opt/veriftools/go1.27.3/bin:$PATH
fi
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
export GOPATH=${GOPATH:-/root/go}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG
REPO=${REPO:-/repo}
export REPO
# the module files are not tracked in /repo (git ignores them there)
[ -f "$REPO/go.mod" ] || cp "$VERIF_DIR/mc/ndaumath.mod.txt" "$REPO/go.mod"
[ -f "$REPO/go.sum" ] || cp "$VERIF_DIR/mc/ndaumath.sum.txt" "$REPO/go.sum"
BIN=$VERIF_DIR/bin
mkdir -p "$BIN"
MODFLAG=
if [ "$REPO" != /repo ]; then
  # the same module against another tree
  tag=$(echo "$REPO" | tr -c 'a-zA-Z0-9\n' _)
  BIN=$VERIF_DIR/bin/$tag
  mkdir -p "$BIN"
  sed "s#=> /repo#=> $REPO#" "$VERIF_DIR/mc/go.mod" > "$BIN/go.mod"
  cp "$VERIF_DIR/mc/go.sum" "$BIN/go.sum"
  MODFLAG=-modfile=$BIN/go.mod
fi
