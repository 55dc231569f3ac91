#!/bin/bash
# tryseed.sh ID...: the demonstration passes on a copy of /repo and fails with the patch; build and stable tests still pass
for id in "$@"; do
  S=/tmp/seedtry-$id; mkdir -p "$S"; cp -a /repo/. "$S/"
  D=/verif/seeded/$id
  (cd "$S" && bash "$D/demo.sh" >/tmp/seedtry-$id.clean 2>&1); c=$?
  (cd "$S" && git apply "$D/patch.diff") || echo "$id: patch does not apply"
  (cd "$S" && bash "$D/demo.sh" >/tmp/seedtry-$id.bad 2>&1); b=$?
  echo "$id: clean=$c patched=$b $(grep -h 'panicked\|demo:' -A1 /tmp/seedtry-$id.bad | tail -2 | tr '\n' ' ')"
  find "$S" -delete
done
