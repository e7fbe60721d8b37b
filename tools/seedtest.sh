#!/bin/bash
# seedtest.sh [ID...]: confirms planted changes in a scratch copy and says which checks catch them.
. /opt/vp/env.sh
root=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls $root/seeded)
checks=${CHECKS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$root/MANIFEST.json'))['checks']])")}
$root/check.sh build
one() {
  id=$1; w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo $w/repo; cp -a $root/seeded/$id $w/demo
  cd $w/repo
  r="$id:"
  if [ -z "${SKIPDEMO:-}" ]; then bash $w/demo/demo.sh >$w/out0 2>&1 || { r="$r DEMO-FAILS-ON-CLEAN"; tail -5 $w/out0; }; fi
  git apply $root/seeded/$id/patch.diff || r="$r PATCH-FAILS"
  git diff --name-only | tr '\n' ' ' >/dev/null
  go build ./... >$w/build 2>&1 || r="$r BUILD-FAILS"
  if [ -z "${SKIPDEMO:-}" ]; then
    go test -vet=off -count=1 ./... >$w/test 2>&1 || { r="$r TESTS-FAIL"; grep -- '--- FAIL' $w/test; }
    bash $w/demo/demo.sh >$w/out1 2>&1 && r="$r DEMO-PASSES-WITH-PATCH"
  fi
  want=$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
  mkdir -p $w/v/evidence; cp $root/known_findings.txt $w/v/
  caught=""
  for c in $checks; do
    $root/bin/wfdlint -repo $w/repo -verif $w/v -check $c -tier quick >$w/log.$c 2>&1
    rc=$?
    [ $rc = 1 ] && caught="$caught $c"; [ $rc -gt 1 ] && caught="$caught $c(rc$rc)"
  done
  m=MISSED; for c in $caught; do [ "$c" = "$want" ] && m=caught; done
  echo "$r want=$want $m by:[$caught ] $(grep -h '\[' $w/log.$want 2>/dev/null | head -1 | cut -c1-160)"
  rm -rf $w
}
export -f one; export root checks SKIPDEMO
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
