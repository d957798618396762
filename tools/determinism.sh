#!/bin/bash
# determinism.sh ID... : run each check twice with different hash seeds;
# the per-run logs (plan, outcome, states) have to be identical.
cd "$(dirname "$0")/.." || exit 2
t=$(mktemp -d); rc=0
for id in "$@"; do
  VERIF_HASHSEED=1 bash check.sh "$id" --runs "${RUNS:-40}" --log "$t/a" >/dev/null 2>&1
  VERIF_HASHSEED=77 bash check.sh "$id" --runs "${RUNS:-40}" --log "$t/b" >/dev/null 2>&1
  if cmp -s "$t/a" "$t/b" && [ -s "$t/a" ]; then echo "$id identical: $(wc -l < "$t/a") runs, sha256 $(sha256sum < "$t/a" | cut -c1-16)"
  else echo "$id DIFFERS"; diff "$t/a" "$t/b" | head -4 | cut -c1-300; rc=1; fi
done
rm -r "$t"; exit $rc
