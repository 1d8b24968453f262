#!/bin/bash
# check.sh PROP: builds the simulator from /repo's working tree and decides one property.
#   VERIF_SEED, VERIF_TIER   as in MANIFEST.json
#   REPO                     another tree to check (default /repo)
#   SIM_RUNS, SIM_RACE_RUNS, SIM_CAP (s), SIM_PROCS, SIM_SHRINK (s)   override the budget
# check.sh --replay FILE: runs a replay file again.
# check.sh --build DIR: only builds, into DIR.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=${REPO:-/repo}
work=$(mktemp -d /tmp/booklit-check-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM HUP

build() { # DIR [-race]
	mkdir -p "$1" &&
		(cd "$here/sim/gen" && go build -o "$1/gen" .) &&
		"$1/gen" -goroot "$(go env GOROOT)" -out "$1" -sim "$here/sim" -repo "$repo" >"$1/gen.log" &&
		(cd "$repo" && go test -c -vet=off -overlay "$1/overlay.json" ${2:-} -o "$1/sim.test" ./verifsim)
}

case "${1:-}" in
--build)
	build "$2" && build "$2/race" -race
	exit
	;;
--replay)
	file=$(realpath "$2")
	prop=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	export SIM_REPLAY=$file
	race=$(grep -c '^ "race": true' "$file")
	;;
"")
	echo "usage: check.sh PROP" >&2
	exit 3
	;;
*)
	prop=$1
	case $prop in C02 | C10 | C12) race=1 ;; *) race=0 ;; esac
	;;
esac

began=$(date +%s)
if ! build "$work/bin" >&2; then
	echo "ERROR the simulator does not build from $repo"
	exit 3
fi
if [ "$race" != 0 ]; then
	if ! build "$work/race" -race >&2; then
		echo "ERROR the simulator does not build from $repo with the race detector"
		exit 3
	fi
	export SIM_RACE_BIN=$work/race/sim.test
fi
echo "built in $(($(date +%s) - began)) s"
cd "$work" || exit 3
SIM_DRIVE=$prop SIM_KNOWN=$here/known-findings.txt SIM_EVIDENCE_DIR=$here/evidence SIM_REPLAY_DIR=$here/replays \
	"$work/bin/sim.test" -test.run '^TestDrive$' -test.timeout 0 2>"$work/stderr"
code=$?
if [ $code -ne 0 ] && [ $code -ne 1 ]; then
	tail -c 4000 "$work/stderr"
fi
exit $code
