#!/bin/bash
# check.sh <property> <quick|thorough>   builds the simulator against /repo's working tree and decides one property
# check.sh replay <file>                 re-executes a replay file exactly
# VSIM_REPO may name another copy of the repository.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$here}
export VSIM_REPO=${VSIM_REPO:-/repo}
prop=$1
tier=${2:-quick}
[ "$prop" = replay ] && { file=$(realpath "$2"); prop=$(grep -o '"property": *"C[0-9]*"' "$file" | head -1 | grep -o 'C[0-9]*'); }
work=$(mktemp -d "${TMPDIR:-/tmp}/vsim-build.XXXXXX") || exit 2
case $work in /?*/vsim-build.*) ;; *) exit 2 ;; esac
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
export VSIM_BUILD=$work
sed "s#=> /repo#=> $VSIM_REPO#" "$here/sim/go.mod" > "$work/go.mod" || exit 2
[ -f "$here/sim/go.sum" ] && cp "$here/sim/go.sum" "$work/go.sum"
cd "$here/sim" || exit 2
flags=()
if [ "$prop" = C13 ] || { [ "$1" = survey ] && [ "$2" = C13 ]; }; then
	# every statement of the decoder becomes a scheduling point, and the race detector watches
	go build -o "$work/instr" ./instr && "$work/instr" "$VSIM_REPO" "$here/sim" "$work/overlay" "$(go env GOROOT)" > "$work/instr.log" 2>&1 || {
		cat "$work/instr.log" >&2
		echo "check $prop: the decoder cannot be instrumented" >&2
		exit 2
	}
	flags=(-race -tags simsched -overlay "$work/overlay/overlay.json")
fi
if [ "$prop" = C15 ] || { [ "$1" = survey ] && [ "$2" = C15 ]; }; then
	# the program itself, its threads scheduled and its system calls for files scripted
	go build -o "$work/instr" ./instr && "$work/instr" "$VSIM_REPO" "$here/sim" "$work/prog.d" "$(go env GOROOT)" prog > "$work/instr.log" 2>&1 &&
		go build -modfile="$work/go.mod" -overlay "$work/prog.d/overlay.json" -o "$work/prog" vsim/prog > "$work/instr.log" 2>&1 || {
		cat "$work/instr.log" >&2
		echo "check $prop: the program cannot be built" >&2
		exit 2
	}
	export VSIM_PROG=$work/prog
fi
if ! go build -modfile="$work/go.mod" "${flags[@]}" -o "$work/vsim" . > "$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "check $prop: the simulator does not build against $VSIM_REPO" >&2
	exit 2
fi
if [ "$1" = build ]; then
	true
elif [ "$1" = survey ]; then
	"$work/vsim" survey "$2" "$3"
elif [ "$1" = replay ]; then
	"$work/vsim" replay "$file"
else
	"$work/vsim" check "$prop" "$tier"
fi
rc=$?
exit $rc
