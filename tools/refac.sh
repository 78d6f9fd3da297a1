#!/bin/bash
# tools/refac.sh OP... (or OP+OP, one after the other): rewrites a scratch copy of /repo at every place where OP (see xxverif/refac) fits, confirms that it
# still builds and passes the stable tests, and runs every check on it. ONLY=REGEXP limits the functions (file:function),
# IDS the checks. Prints what is not quiet.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh; export GOSUMDB=off
work=${WORK:-/tmp/refac.d}; mkdir -p $work
bin=${XXV:-$work/xxv}
(cd $here/xxverif && go build -o $work/refacbin ./refac && { [ -n "$XXV" ] || go build -o $work/xxv .; }) || exit 2
ids=${IDS:-$(python3 -c "import json;print(*[c['property'] for c in map(lambda c:{'property':c.get('property',c.get('property_id'))},json.load(open('$here/MANIFEST.json'))['checks'])])")}
for op in "$@"; do
  d=$work/$op; rm -rf "$d"; cp -a /repo "$d"
  n=; for o in ${op//+/ }; do n=${n}x; $work/refacbin -tag $n -repo "$d" -op "$o" -only "$ONLY" | tail -1; done
  (cd "$d" && go build ./...) || continue
  (cd "$d" && go test -vet=off ./... 2>&1 | grep -E "^--- FAIL|build failed" | head -4)
  for id in $ids; do
    echo "$id"
  done | xargs -P ${J:-8} -I{} sh -c "timeout 900 $bin -property {} -repo $d -verif $work/v-$op >$work/out-$op-{} 2>&1 || { echo '$op {}'; grep -v KNOWN $work/out-$op-{} | head -${LINES_SHOWN:-3} | cut -c1-${WIDTH:-300}; }"
  rm -rf "$work/v-$op"; [ -n "$KEEP" ] || rm -rf "$d"
done
