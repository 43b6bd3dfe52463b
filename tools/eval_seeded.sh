#!/bin/bash
# eval_seeded.sh [-d SEEDED_DIR] [-p "C01 C02"] [-w WORK] ID...: run the checks against planted
# bugs in a scratch copy; neither /repo nor /verif's build output is touched.
here="$(cd "$(dirname "$0")/.." && pwd)"
dir="$here/seeded"; props=""; w=/tmp/ecv-eval
while getopts d:p:w: o; do case $o in d) dir=$OPTARG;; p) props=$OPTARG;; w) w=$OPTARG;; esac; done
shift $((OPTIND-1))
mkdir -p "$w"
rm -rf "$w/repo"; mkdir "$w/repo"; (cd /repo && tar c --exclude=./target .) | tar x -C "$w/repo"
mkdir -p "$w/v"
for x in monitor race check.sh KNOWN_FINDINGS.txt; do rm -rf "$w/v/$x"; cp -a "$here/$x" "$w/v/$x"; done
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" "$w"/v/*/Cargo.toml
[ $# -eq 0 ] && set -- $(ls "$dir")
for id in "$@"; do
    git -C "$w/repo" checkout -q -- . && git -C "$w/repo" apply "$dir/$id/patch.diff" || { echo "$id does not apply"; continue; }
    p="${props:-$(python3 -c "import json,sys;print(json.load(open('$dir/$id/meta.json'))['property'])")}"
    for c in $p; do
        t0=$SECONDS
        out="$(timeout 900 bash "$w/v/check.sh" $c 2>&1)"; rc=$?
        echo "$id $c rc=$rc $((SECONDS-t0))s $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-60) $(grep -m1 -A1 '^VIOLATION' <<<"$out" | tail -1 | cut -c1-160)"
    done
    git -C "$w/repo" checkout -q -- .
done
