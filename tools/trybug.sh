#!/bin/bash
# tools/trybug.sh ID [CHECK...]: applies seeded/ID to a scratch copy of /repo, confirms that the
# tests pass and that the demonstration separates the two trees, and runs the checks on the copy
# (default: the one of its property; ALL: every check).
V=$(dirname "$(dirname "$(realpath "$0")")")
S=$V/seeded/$1
W=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"
mkdir "$W/demo"; cp "$S"/* "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
sed "s#/repo#$W/r#g" -i "$W"/demo/*
cd "$W/r" || exit 9
bash "$W/demo/demo.sh" >"$W/out0" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$1: patch does not apply"; exit 9; }
bash "$W/demo/demo.sh" >"$W/out1" 2>&1; r1=$?
PYTHONPATH=$W/r PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 >"$W/t" 2>&1
rt=$?
np=$(grep -o '[0-9]* passed' "$W/t")
ok=KEEP; [ $r0 = 0 ] && [ $r1 != 0 ] && [ $rt = 0 ] || ok=BAD
echo "$1: $ok demo $r0/$r1 tests $rt ($np)"
[ $ok = BAD ] && { tail -5 "$W/out0"; echo ---; tail -5 "$W/out1"; tail -15 "$W/t"; }
shift
[ "$1" = ALL ] && set -- $(cd "$V/pv/checks"; ls | grep '^[A-Z].*py$' | sed 's/.py//')
for c in "$@"; do
  PV_EVIDENCE=$W/ev PYCIM_REPO=$W/r "$V/bin/check" $c quick >"$W/c" 2>&1; rc=$?
  echo "   $c -> $rc $(grep -c '^VIOLATION' "$W/c") $(grep '^  ' "$W/c" | head -1 | cut -c1-200)"
done
