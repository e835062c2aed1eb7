#!/bin/bash
# rebase_seeded.sh OLDHEAD: moves the planted changes that no longer apply to
# /repo's HEAD from OLDHEAD to HEAD, by a three-way merge in a scratch clone.
old=$1
w=$(mktemp -d /tmp/rebase.XXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/r"; cd "$w/r"; head=$(git rev-parse HEAD)
git config user.email x@x; git config user.name x
for d in /verif/seeded/*/; do
  n=$(basename "$d")
  git checkout -qf "$head"
  git apply --check "$d/patch.diff" 2>/dev/null && continue
  git checkout -qf "$old"
  if ! git apply "$d/patch.diff"; then echo "$n: not on OLDHEAD"; continue; fi
  git commit -qam x; c=$(git rev-parse HEAD)
  git checkout -qf "$head"
  if git cherry-pick -n "$c" >/dev/null 2>&1; then git diff --cached > "$d/patch.diff"; echo "$n: moved"; git reset -q --hard "$head"
  else echo "$n: conflict"; git diff | head -30; git reset -q --hard "$head"; fi
done
