#!/bin/bash
# check.sh PROPERTY [quick|thorough] - builds the explorer from /repo's working tree and runs one property.
# Exit 0: held on everything explored; 1: violated (VIOLATION line); other: error of the check.
set -u
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
. "$ROOT/env.sh"
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
trap 'exit 4' INT TERM
mkdir -p evidence replays
rm -f "evidence/$PROP.json"

case $PROP in
P12|P15|P17|P18|P25|P31) VARIANT=maporder ;;
P16) VARIANT=sched ;;
P22) VARIANT=osfault ;;
*) VARIANT=plain ;;
esac

build() {
	cd "$ROOT/harness" || return 1
	if [ $VARIANT = plain ]; then
		go build -o "$S/check" ./cmd/check
	else
		go run ./cmd/overlay -variant $VARIANT -dir "$S" -repo /repo &&
			go build -modfile "$S/go.mod" -overlay "$S/overlay.json" -tags $VARIANT -ldflags=-checklinkname=0 -o "$S/check" ./cmd/check || return 1
		[ $VARIANT != sched ] ||
			go build -race -modfile "$S/go.mod" -overlay "$S/overlay.json" -tags $VARIANT -ldflags=-checklinkname=0 -o "$S/check-race" ./cmd/check
	fi
}
if ! build >"$S/build.log" 2>&1; then
	cat "$S/build.log" >&2
	echo "check $PROP: build failed" >&2
	exit 3
fi
cd "$ROOT" || exit 3
export GOTRACEBACK=all
"$S/check" -prop "$PROP" -tier "$TIER" -root "$ROOT" -scratch "$S" >"$S/out" 2>"$S/err"
RC=$?
cat "$S/out"
head -c 4000 "$S/err" >&2
if [ $RC -ne 0 ] && [ $RC -ne 1 ]; then
	# the runtime killed the process: a fatal error in the code under test is a violation
	if grep -qE '^(fatal error|panic|runtime): ' "$S/err" && grep -q 'spdx/tools-golang' "$S/err"; then
		head -c 200000 "$S/err" >"replays/$PROP-fatal.txt"
		# the inputs that were being executed
		[ -f "$S/inflight" ] && tr -s '\0' '\n' <"$S/inflight" | head -c 1000000 >>"replays/$PROP-fatal.txt"
		echo "{\"property\":\"$PROP\",\"tier\":\"$TIER\",\"seed\":${VERIF_SEED:-0},\"level\":\"other\",\"coverage\":{\"explanation\":\"the run was killed by a fatal error in the code under test\"},\"wall_s\":0,\"violations\":1}" >"evidence/$PROP.json"
		echo "VIOLATION property=$PROP replay=$ROOT/replays/$PROP-fatal.txt"
		exit 1
	fi
	echo "check $PROP: ended with status $RC" >&2
fi
exit $RC
