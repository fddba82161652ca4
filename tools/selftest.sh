#!/bin/bash
# tools/selftest.sh [ID...]: one seed is one execution.  Runs every check twice,
# with other numbers of workers and other hash seeds, and compares what happened
# in every run (bin/check ID --digest prints one line per run).
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(ls dst/checks | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')}
tmp=$(mktemp -d) || exit 2
rc=0
for id in $ids; do
    DST_WORKERS=8 PYTHONHASHSEED=0 bin/check "$id" --digest 2> "$tmp/ea" | sort -n > "$tmp/a"
    DST_WORKERS=3 PYTHONHASHSEED=4242 bin/check "$id" --digest 2> "$tmp/eb" | sort -n > "$tmp/b"
    if [ -s "$tmp/a" ] && cmp -s "$tmp/a" "$tmp/b"; then
        echo "$id deterministic: $(wc -l < "$tmp/a") runs"
    else
        echo "$id DIFFERS: $(diff "$tmp/a" "$tmp/b" | grep -c '^<') of $(wc -l < "$tmp/a") runs"
        diff "$tmp/a" "$tmp/b" | head -5
        tail -3 "$tmp/ea"
        rc=1
    fi
done
rm -f "$tmp"/a "$tmp"/b "$tmp"/ea "$tmp"/eb
rmdir "$tmp"
exit $rc
