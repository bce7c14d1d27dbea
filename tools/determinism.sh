#!/bin/bash
# determinism.sh RUNS PID...: the same seed twice, with 8 and with 3 workers; every run must be the same
here=$(cd "$(dirname "$0")/.." && pwd); n=$1; shift
t=$(mktemp -d); bad=0
for p in "$@"; do
  "$here/run" "$p" --runs "$n" --no-evidence --no-jit --all --seed 7 --workers 8 --dump "$t/a" >/dev/null
  "$here/run" "$p" --runs "$n" --no-evidence --no-jit --all --seed 7 --workers 3 --dump "$t/b" >/dev/null
  if [ -s "$t/a" ] && diff <(sort "$t/a") <(sort "$t/b") > "$t/d"; then echo "$p same ($(wc -l < "$t/a") runs)"
  else echo "$p DIFFERENT"; head -4 "$t/d" | cut -c1-300; bad=1; fi
done
rm -r "$t"; exit $bad
