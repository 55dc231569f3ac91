#!/bin/bash
# against.sh ID [PROPERTY [CHECK-ARGS]]: run the property's check on a copy of /repo with the planted change applied
id=$1; D=/verif/seeded/$id; [ -d "$D" ] || D=/verif/planted/$id
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; shift; shift
S=/tmp/against-$id; rm -rf "/tmp/against-$id"; mkdir -p "$S"; git -C /repo archive HEAD | tar -x -C "$S"
(cd "$S" && git init -q . && git apply "$D/patch.diff") || exit 3
VERIF_REPO_DIR=$S python3 /verif/check.py $P --tier quick "$@" > /tmp/against-$id.log 2>&1; echo "$id $P exit $?: $(tail -3 /tmp/against-$id.log | cut -c1-300 | tr '\n' ' ')"
find "$S" -delete
