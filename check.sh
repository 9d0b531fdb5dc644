#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the simulation from /repo's working tree and
# searches for violations of the property. Exit 0: held on everything explored;
# 1 with a VIOLATION line: broken; 2: the check itself failed.
# check.sh replay FILE: reproduces a replay file.
# check.sh hashes PROPERTY RUNS [WORKERS [BATCH]]: event hashes (determinism test).
# SIM_REPO and SIM_OUT (development only) name another tree and output folder.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOMAXPROCS GODEBUG GOGC GOMEMLIMIT GORACE
work=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
repo=${SIM_REPO:-/repo} outdir=${SIM_OUT:-$here}
fail() { echo "check.sh: $*"; exit 2; }

build() { # build race?
	cp "$here/sim/go.mod" "$here/sim/go.sum" "$work/" || fail "no module"
	sed -i "s#=> /repo\$#=> $repo#" "$work/go.mod"
	(cd "$here/sim" && go build -modfile="$work/go.mod" -o "$work/simprep" ./cmd/simprep) || fail "building simprep failed"
	"$work/simprep" "$repo" "$work/prep" || fail "preparing the simulated build failed"
	cat "$work/prep/replace.txt" >>"$work/go.mod" || fail "no replacements"
	local pids=() p
	(cd "$here/sim" && go build -trimpath -modfile="$work/go.mod" -overlay "$work/prep/overlay.json" -o "$work/simcheck" ./cmd/simcheck) & pids+=($!)
	if [ "$1" = race ]; then
		cp "$work/go.mod" "$work/go.race.mod"; cp "$work/go.sum" "$work/go.race.sum"
		(cd "$here/sim" && go build -trimpath -race -modfile="$work/go.race.mod" -overlay "$work/prep/overlay.json" -o "$work/simcheck.race" ./cmd/simcheck) & pids+=($!)
	fi
	for p in "${pids[@]}"; do wait "$p" || fail "building the simulation failed"; done
}
common=(-bin "$work/simcheck" -racebin "$work/simcheck.race" -scratch "$work" -meta "$work/prep/meta.json")
mkdir -p "$work/prep"

case "${1:-}" in
replay)
	build race
	"$work/simcheck" replay "${common[@]}" "$2"; exit $? ;;
hashes)
	build race
	"$work/simcheck" hashes -prop "$2" -runs "$3" -workers "${4:-8}" -batch "${5:-0}" "${common[@]}"; exit $? ;;
setup) # warms the build cache
	build race; exit 0 ;;
one) # PROPERTY INDEX, with VERIF_SEED
	build norace
	"$work/simcheck" one "$2" "${VERIF_SEED:-1}" "$3"; exit $? ;;
C[0-9][0-9])
	tier=${2:-${VERIF_TIER:-quick}}
	race=norace
	case "$1" in C07|C09) race=race ;; esac
	rm -f "$outdir/evidence/$1.json"
	build $race
	"$work/simcheck" run -prop "$1" -tier "$tier" -evidence "$outdir/evidence/$1.json" -replays "$outdir/replays" -known "$here/known_findings.txt" ${SIM_RUNS:+-runs "$SIM_RUNS"} ${SIM_WALL:+-wall "$SIM_WALL"} ${SIM_WORKERS:+-workers "$SIM_WORKERS"} "${common[@]}"
	exit $? ;;
*) fail "usage: check.sh PROPERTY quick|thorough | replay FILE | hashes PROPERTY RUNS" ;;
esac
