#!/bin/bash
# mut.sh PATCH|-R:COMMIT PROP... : run checks against a scratch copy of /repo with a patch applied (or a fix commit reverted)
set -u
src=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
git update-index -q --refresh
case $src in
 -R:*) git show "${src#-R:}" | git apply -R -3 || { echo "cannot revert $src"; exit 3; } ;;
 *) git apply "$src" || { echo "cannot apply $src"; exit 3; } ;;
esac
mkdir -p "$d/out"
for p in "$@"; do
  VERIF_REPO=$d/repo VERIF_OUT=$d/out timeout 900 /verif/check.sh $p > "$d/log" 2>&1; rc=$?
  echo "$src $p exit=$rc $(grep -m1 -A1 VIOLATION "$d/log" | cut -c1-300 | tr '\n' ' ')"
  [ $rc = 2 ] && tail -5 "$d/log"
done
