#!/bin/bash
# Same plans, two numbers of workers: the hash of every run's events must be the same. usage: tools/determinism.sh [runs]
V=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d /tmp/simnn.XXXXXX); trap 'rm -r -- "$T"' EXIT; cd "$T"
bad=0
for v in sched-native asan-native; do X=$(python3 "$V/tools/build.py" $v | awk '{print $2}')
  for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 24; do
    for w in 3 13; do $X --prop C$p --seed ${SEED:-77} --runs ${1:-2000} --workers $w --time 600 --keep-going --hashes --out $T/h$w --replaydir $T >/dev/null 2>&1; cat h$w.hash.* | sort > all.$w; done
    if cmp -s all.3 all.13; then echo "C$p $v same $(wc -l < all.3)"; else echo "C$p $v DIFFERENT"; bad=1; fi
  done
done
exit $bad
