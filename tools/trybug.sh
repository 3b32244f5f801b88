#!/bin/bash
# trybug.sh SEEDED-ID [CHECK...]: apply a planted bug to /repo, run the library's tests, the demo and
# the checks (default: the bug's property), undo. NOTEST=1 skips the tests and the demo.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
d=$here/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
checks=("$@")
[ ${#checks[@]} -gt 0 ] || checks=("$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")")
if [ -z "${NOTEST:-}" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/demo.out 2>&1); echo "$id: demo without: $?"; fi
git -C /repo apply "$d/patch.diff" || exit 2
if [ -z "${NOTEST:-}" ]; then
  (cd /repo && bash "$d/demo.sh" >/tmp/demo.out 2>&1); rc=$?; echo "$id: demo with: $rc ($(tail -1 /tmp/demo.out | cut -c1-150))"
  echo "$id: tests: $(bash /opt/vp/test.sh /tmp/trybug.json 2>&1 | tail -1)"
fi
for c in "${checks[@]}"; do
  s=$(date +%s)
  "$here/check.sh" "$c" > /tmp/trybug.out 2>/tmp/trybug.err; rc=$?
  echo "$id: $c exit $rc in $(( $(date +%s) - s )) s: $(grep -v '^VIOLATION' /tmp/trybug.out | head -1 | cut -c1-200)"
done
git -C /repo checkout -q -- .
