#!/bin/bash
# usage: meta/seed.sh ID [check ids...]   validates /verif/seeded/ID and reports what the checks say
set -u
id=$1; shift
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo "$w/repo"
cd "$w/repo" || exit 9
git checkout -q -- . 
cp -r "$s" "$w/demo"; rm -f "$w/demo/"*.diff "$w/demo/meta.json"
bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; c=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
bash "$w/demo/demo.sh" > "$w/bug.log" 2>&1; b=$?
t=skip
if [ "${NOTEST:-}" = "" ]; then
( cd "$w/repo" && MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 timeout 300 /opt/venv/bin/python -m pytest -q --no-header -p no:cacheprovider -W ignore -o 'python_files=*_test.py' --continue-on-collection-errors test > "$w/test.log" 2>&1 ); t=$(tail -1 "$w/test.log")
fi
echo "$id: clean=$c bug=$b tests: $t"
[ $c -ne 0 ] && tail -5 "$w/clean.log"
[ $b -eq 0 ] && tail -5 "$w/bug.log"
for k in "$@"; do ( cd /verif && VERIF_REPO="$w/repo" VERIF_EVIDENCE="$w" python3 -m sa.run $k | grep -v "^$" | tail -${LINES_:-6} ); done
rm -rf "$w"
