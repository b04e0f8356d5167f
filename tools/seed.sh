#!/bin/bash
# seed.sh ID [nocheck|PROP...]  confirms planted bug seeded/ID in a scratch copy of /repo and runs its property's check (or PROP...) on it
id=$1; shift
S=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
cp -a /repo "$w/repo"; mkdir -p "$w/demo"; cp "$S"/* "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
R=$w/repo; git -C "$R" checkout -q -- . 
(cd "$R" && bash "$w/demo/demo.sh" >"$w/demo.clean" 2>&1); rc=$?
[ $rc = 0 ] || { echo "$id DEMO FAILS ON CLEAN TREE rc=$rc"; tail -5 "$w/demo.clean"; exit 1; }
git -C "$R" apply "$S/patch.diff" || { echo "$id patch does not apply"; exit 1; }
(cd "$R" && go build ./... && go vet . >/dev/null 2>&1; go build -o /dev/null ./main) || { echo "$id does not build"; exit 1; }
(cd "$R" && timeout 280 bash "$w/demo/demo.sh" >"$w/demo.bad" 2>&1); rc=$?
[ $rc = 0 ] && { echo "$id DEMO PASSES WITH PATCH"; exit 1; }
sed "s#/repo#$R#g" /opt/vp/test.sh >"$w/test.sh"; bash "$w/test.sh" "$w/t.json" >/dev/null 2>&1
python3 - "$w/t.json" <<'P' || { echo "$id BREAKS STABLE TESTS"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
p=set(t.get('passed') or t.get('pass') or [])
bad=[x for x in b if x not in p]
if bad: print(bad[:5]); sys.exit(1)
P
[ "$1" = nocheck ] && { echo "$id confirmed (demo rc=$rc: $(tail -1 "$w/demo.bad" | cut -c1-200))"; exit 0; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
V=$w/verif; mkdir -p "$V"; cp -a /verif/harness /verif/KNOWN_FINDINGS.txt "$V/"
sed -i "s#=> /repo#=> $R#" "$V/harness/go.mod"
res=""
for p in ${@:-$prop}; do
  flags=()
  case " $(cat $V/harness/RACE_CHECKS|tr '\n' ' ') " in *" $p "*) flags=(-race);; esac
  case " $(cat $V/harness/CHECKPTR_CHECKS|tr '\n' ' ') " in *" $p "*) flags=(-gcflags=github.com/steelseries/golisp=-d=checkptr);; esac
  (cd $V/harness && GOFLAGS='-mod=readonly -buildvcs=false' go build "${flags[@]}" -tags verif -o "$w/vh" .) || { echo "$id harness build failed"; exit 1; }
  s=$(date +%s)
  "$w/vh" check $p "$w" "$V" >"$w/out" 2>&1; rc=$?
  res="$res $p:rc=$rc($(grep -ac VIOLATION "$w/out"),$(( $(date +%s)-s ))s)"
  [ -n "$SHOW" ] && grep -a -A1 VIOLATION "$w/out" | head -6 | cut -c1-300
done
echo "$id property=$prop demo-ok tests-ok checks:$res"
