#!/bin/bash
# run.sh PROPERTY: builds the explorer against /repo's working tree and decides the property.
# exit 0: held on everything explored; 1: VIOLATION; 2: could not be built or run.
id=$1
. "$(cd "$(dirname "$0")" && pwd)/env.sh"
cd "$VERIF_DIR/mc" || exit 2
cmd=core
case $id in
  A*|T*|E*|P*|G*|F*|R02|X02) cmd=eco ;;
  C01) cmd=conc ;;
  C02) cmd=conceco ;;
esac
out=$BIN/$cmd.$$
err=$BIN/err.$$
ov=$BIN/ov.$$
trap 'rm -rf "$out" "$err" "$ov" "$out.race" "$out.64" "$out.v3" "$BIN/keyaddr.$$.wasm"' EXIT
overlay=
case $id in C*)
  # the packages with a point of change-over before every statement
  if ! go build $MODFLAG -o "$out" ./cmd/instr || ! "$out" "$REPO/pkg" "$ov"; then
    echo "run.sh: cannot instrument $REPO" >&2
    exit 2
  fi
  overlay="-overlay $ov/overlay.json"
  export CONC_RACE=$out.race CONC_SITES=$ov/sites.json
  if ! CGO_ENABLED=1 go build $MODFLAG $overlay -race -o "$CONC_RACE" ./cmd/$cmd; then
    echo "run.sh: the race detecting explorer does not build against $REPO" >&2
    exit 2
  fi ;;
esac
if ! go build $MODFLAG $overlay -o "$out" ./cmd/$cmd; then
  echo "run.sh: the explorer does not build against $REPO" >&2
  exit 2
fi
case $id in
J01)
  export KEYADDR_WASM=$BIN/keyaddr.$$.wasm WASM_EXEC=$(go env GOROOT)/lib/wasm/wasm_exec.js
  if ! GOOS=js GOARCH=wasm go build $MODFLAG -o "$KEYADDR_WASM" github.com/ndau/ndaumath/cmd/keyaddr; then
    echo "run.sh: the wasm module does not build against $REPO" >&2
    exit 2
  fi ;;
X*)
  # the program itself is a 32-bit one, which has others to compare with
  build() {
    if ! env "$@"; then
      echo "run.sh: a build of the explorer for other processors fails against $REPO" >&2
      exit 2
    fi
  }
  export BUILD_AMD64=$out.64 BUILD_AMD64_V3=
  mv "$out" "$out.64"
  build GOARCH=386 CGO_ENABLED=0 go build $MODFLAG -o "$out" ./cmd/$cmd
  if [ "$(grep -m1 '^flags' /proc/cpuinfo | grep -ow 'avx2\|bmi1\|bmi2\|fma\|movbe\|f16c' | sort -u | wc -l)" = 6 ]; then
    build GOAMD64=v3 go build $MODFLAG -o "$out.v3" ./cmd/$cmd
    export BUILD_AMD64_V3=$out.v3
  fi
  export GOMEMLIMIT=2500MiB
  ulimit -v 26000000 ;;
C*) ;;
*)
  # code which never stops allocating ends as a Go error with a stack
  ulimit -v 26000000 ;;
esac
"$out" "$id" "${VERIF_TIER:-quick}" 2> "$err"
rc=$?
cat "$err" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -q '^fatal error: \|^panic: ' "$err" && grep -q "$REPO/" "$err"; then
  # the Go runtime ended the explorer (stack overflow, memory, concurrent map access) within the code under test
  mkdir -p "$VERIF_DIR/evidence/replay"
  cp "$err" "$VERIF_DIR/evidence/replay/$id-crash.txt"
  echo "VIOLATION property=$id replay=$VERIF_DIR/evidence/replay/$id-crash.txt"
  exit 1
fi
exit $rc
