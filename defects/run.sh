#!/bin/bash
# Demonstrates the genuine defects that were repaired by the fix: commits.  usage: run.sh REPO_DIR
# On the original tree every test fails (or does not return / crashes); on the repaired tree all pass.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd); repo=$(realpath "${1:-/repo}"); o=$(mktemp)
cat > "$o" <<J
{"Replace":{"$repo/cache/zz_defects_test.go":"$here/cache_defects_test.go","$repo/redis/zz_defects_test.go":"$here/redis_defects_test.go","$repo/zz_defects_test.go":"$here/root_defects_test.go"}}
J
cd "$repo"
for spec in "cache ./cache" "redis ./redis" "root ."; do set -- $spec
  for t in $(sed -n 's/^func \(Test[A-Za-z0-9]*\).*/\1/p' "$here/$1_defects_test.go"); do
    if timeout 60 go test -overlay "$o" -vet=off -race -count=1 -run "^$t\$" $2 >/tmp/defect.log 2>&1; then echo "pass $t"; else echo "FAIL $t: $(grep -m1 -E '^ +zz_|panic:|fatal|race' /tmp/defect.log)"; fi
  done
done
rm -f "$o"
