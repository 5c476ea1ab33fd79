# Build settings shared by check.sh and setup.sh. Nothing is fetched and
# nothing is written outside .build.
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH="$PATH:/usr/local/go/bin"
# the monitors' own caches: results depend only on the sources
export LC_ALL=C TZ=UTC

VERIF_CLI="$VERIF_DIR/.build/bin/scte35-$(printf '%s' "$VERIF_REPO" | md5sum | cut -c1-8)"
export VERIF_CLI

mon_bin() { # binaries of different trees and builds do not share a name
	local t
	t=$(printf '%s' "$VERIF_REPO" | md5sum | cut -c1-8)
	case "$1" in
	C14) echo "mon-race-$t" ;;
	*) echo "mon-cover-$t" ;;
	esac
}

build_mon() {
	mkdir -p .build/bin || return 1
	local t mod bin
	t=$(printf '%s' "$VERIF_REPO" | md5sum | cut -c1-8)
	mod=".build/go-$t.mod"
	sed "s|=> /repo\$|=> $VERIF_REPO|" go.mod >"$mod.$$" && cp go.sum ".build/go-$t.sum" || return 1
	mv "$mod.$$" "$mod"
	bin=".build/bin/$(mon_bin "$1")"
	case "$1" in
	C14) go build -modfile="$mod" -race -o "$bin.$$" ./mon/cmd ;;
	*) go build -modfile="$mod" -cover -covermode=atomic \
		-coverpkg=verif/mon/cmd,github.com/Comcast/scte35-go/pkg/scte35,github.com/bamiaux/iobit -o "$bin.$$" ./mon/cmd ;;
	esac || return 1
	mv "$bin.$$" "$bin"
	if [ "$1" = C18 ]; then
		(cd "$VERIF_REPO" && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$VERIF_CLI.$$" .) &&
			mv "$VERIF_CLI.$$" "$VERIF_CLI"
	fi
}
