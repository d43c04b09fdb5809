# sourced by run.sh: builds what a check needs into .build, and sets BIN
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
B="$VERIF_DIR/.build"
mkdir -p "$B" || return 1
# go is free to edit these (and never the committed ones)
cp harness/go.mod "$B/go.mod" && cp harness/go.sum "$B/go.sum" || return 1
BIN="$B/vh"
RACE=
case "${1:-}" in
C14) BIN="$B/vh-race"; RACE=-race; export CGO_ENABLED=1 ;;
esac
(cd harness && go build $RACE -modfile="$B/go.mod" -o "$BIN.$$" ./cmd/vh && mv "$BIN.$$" "$BIN") || return 1
if [ "${1:-}" = C17 ]; then
	(cd /repo && cp go.mod "$B/repo.mod" && cp "$VERIF_DIR/harness/go.sum" "$B/repo.sum" && go build -modfile="$B/repo.mod" -o "$B/helium-lint.$$" ./cmd/helium-lint && mv "$B/helium-lint.$$" "$B/helium-lint" && CGO_ENABLED=1 go build -race -modfile="$B/repo.mod" -o "$B/helium-lint.$$" ./cmd/helium-lint && mv "$B/helium-lint.$$" "$B/helium-lint-race") || return 1
fi
if [ "${1:-}" = C21 ]; then
	(cd harness && go build -tags debug -modfile="$B/go.mod" -o "$B/vh-debug.$$" ./cmd/vh && mv "$B/vh-debug.$$" "$B/vh-debug" && CGO_ENABLED=0 GOARCH=386 go build -modfile="$B/go.mod" -o "$B/vh-386.$$" ./cmd/vh && mv "$B/vh-386.$$" "$B/vh-386") || return 1
fi
export BIN
