#!/bin/bash
# check.sh <property> [tier]             build the harness against /repo's working tree and run one check
# check.sh <property> replay <tier> <seed> <phase> <case>
# Exit 0: held on everything observed; 1: VIOLATION; 2: inconclusive or build failure.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS='-mod=readonly -buildvcs=false'
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
id=$1
work=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
flags=()
case " $(cat harness/RACE_CHECKS) " in
  *" $id "*) flags=(-race) ;;
esac
case " $(cat harness/CHECKPTR_CHECKS) " in
  *" $id "*) flags=(-gcflags=github.com/steelseries/golisp=-d=checkptr) ;;
esac
(cd harness && go build "${flags[@]}" -tags verif -o "$work/vh" .) || { echo "build of the harness against /repo failed"; exit 2; }
if [ "$2" = replay ]; then
  VH_DIR=$work "$work/vh" replay "$id" "$3" "$4" "$5" "$6"; exit $?
fi
[ -n "$2" ] && export VERIF_TIER=$2
"$work/vh" check "$id" "$work" "$PWD"
rc=$?
exit $rc
