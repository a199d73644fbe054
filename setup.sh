#!/bin/bash
# builds everything once, so that the checks find it in the build cache
. "$(cd "$(dirname "$0")" && pwd)/env.sh"
cd "$VERIF_DIR/mc" || exit 2
go build $MODFLAG -o "$BIN/" ./cmd/... || exit 2
GOOS=js GOARCH=wasm go build $MODFLAG -o "$BIN/keyaddr.wasm" github.com/ndau/ndaumath/cmd/keyaddr || exit 2
# the builds for other processors
GOARCH=386 CGO_ENABLED=0 go build $MODFLAG -o "$BIN/" ./cmd/core ./cmd/eco || exit 2
GOAMD64=v3 go build $MODFLAG -o "$BIN/" ./cmd/core ./cmd/eco || exit 2
# the standard library with the race detector
CGO_ENABLED=1 go build $MODFLAG -race -o "$BIN/" ./cmd/conc ./cmd/conceco || exit 2
rm -f "$BIN"/keyaddr.wasm "$BIN"/core "$BIN"/eco "$BIN"/conc "$BIN"/conceco "$BIN"/instr
