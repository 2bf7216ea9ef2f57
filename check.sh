#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the explorer and the gql command from /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$tier
ulimit -c 0
scratch=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
(cd /repo && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$scratch/gql" .) || { echo "cannot build gql"; exit 2; }
(cd "$here/mc" && go build -o "$scratch/mc" .) || { echo "cannot build the explorer"; exit 2; }
export MC_VERIF=$here MC_GQL=$scratch/gql MC_SCRATCH=$scratch/work
mkdir -p "$MC_SCRATCH"
case $prop in
C13 | C14)
	# a copy of /repo whose map iterations (and, for C14, statements) are under control; without it the check says what it could not do
	points=
	[ $prop = C14 ] && points=points
	(cd "$here/mc" && go build -o "$scratch/instr" ./cmd/instr) || { echo "cannot build the instrumenter"; exit 2; }
	if (cd /repo && GOFLAGS="-mod=mod -buildvcs=false" "$scratch/instr" /repo "$scratch/tree" $points); then
		if [ $prop = C13 ]; then
			(cd "$scratch/tree" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$scratch/gql-instr" .) && export MC_GQL_INSTR=$scratch/gql-instr
		else
			mkdir "$scratch/mod"
			sed -e "s#=> /repo#=> $scratch/tree#" -e "s#=> ./third_party#=> $here/mc/third_party#" "$here/mc/go.mod" >"$scratch/mod/go.mod"
			cp "$here/mc/go.sum" "$scratch/mod/go.sum"
			(cd "$here/mc" && go build -modfile="$scratch/mod/go.mod" -tags instr -o "$scratch/mc-instr" .) && export MC_INSTR=$scratch/mc-instr
		fi
	fi
	if [ $prop = C14 ]; then
		(cd "$here/mc" && CGO_ENABLED=1 go build -race -o "$scratch/mc-race" .) && export MC_RACE=$scratch/mc-race
	fi
	;;
C18)
	# gql with a standard library which tells what the program consults; without it the check says what it could not do
	mkdir "$scratch/probe"
	if (cd "$here/mc" && go run ./cmd/probe "$(go env GOROOT)" "$scratch/probe") && (cd /repo && GOFLAGS="-mod=mod -buildvcs=false" go build -overlay "$scratch/probe/overlay.json" -o "$scratch/gql-probe" .); then
		export MC_GQL_PROBE=$scratch/gql-probe
	fi
	;;
esac
"$scratch/mc" "$prop" "$tier"
exit $?
