#!/bin/bash
# Two executions of every check must give the same digests: other numbers of workers, other hash seeds.
cd "$(dirname "$0")/.." || exit 1
n=${1:-150}
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19; do
  a=$(DST_WORKERS=8 DST_HASHSEED=0 python3 run.py --prop C$i --seed 5 --runs $n --digests | sort -V | md5sum)
  b=$(DST_WORKERS=3 DST_HASHSEED=77 python3 run.py --prop C$i --seed 5 --runs $n --digests | sort -V | md5sum)
  [ "$a" = "$b" ] && echo "C$i same" || echo "C$i DIFFERENT"
done
