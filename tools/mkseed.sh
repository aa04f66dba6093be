#!/bin/bash
# mkseed.sh <seed id>: turn the uncommitted change in /repo into /verif/seeded/<id>/patch.diff and undo it there
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -- .
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
if [ ! -f "$d/demo.sh" ]; then cp /verif/tools/demo_template.sh "$d/demo.sh"; fi
chmod +x "$d/demo.sh"
