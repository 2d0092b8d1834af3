#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on the clean tree, then with the patch; then the given checks (default: the seed's property) with the patch
id=$1; shift; d=/verif/seeded/$id
ck=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 1
[ -n "$NODEMO" ] || { bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo clean: $?"; }
git apply $d/patch.diff || exit 1
[ -n "$NODEMO" ] || { bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo patched: $? $(grep -m1 -E 'panicked|error' -A1 /tmp/demo.out | tr '\n' ' ' | cut -c1-160)"; }
cd /verif; for c in $ck; do ./check.py $c 2>&1 | cut -c1-${W:-260} | tail -${L:-8}; done
git -C /repo checkout -- .
