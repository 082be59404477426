#!/bin/bash
# tools/quiet.sh WORKDIR DIFF [ID..]: all checks on a copy of /repo with a behaviour-preserving change (must stay quiet)
W=$1 D=$(realpath "$2"); shift 2
mkdir -p "$W"
[ -d "$W/verif" ] || git clone -q /verif "$W/verif"
git -C "$W/verif" pull -q
rm -rf "$W/repo"
git clone -q /repo "$W/repo" && git -C "$W/repo" apply "$D" || exit 3
cd "$W/verif" || exit 3
for id in ${@:-$(seq -f C%02g 18)}; do
    s=$SECONDS
    o=$(VERIF_SEED=${VERIF_SEED:-1} timeout 1500 ./check.sh "$id" 2>&1)
    rc=$?
    echo "$(basename "$D") $id rc=$rc $((SECONDS - s))s"
    [ $rc = 0 ] || echo "$o" | tail -20
done
