#!/bin/bash
# mkseed.sh ID : takes the diff of /tmp/seed/repo (a scratch copy of /repo) as seeded/ID/patch.diff and resets the copy.
set -e
D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/seed/repo diff > "$D/patch.diff"
git -C /tmp/seed/repo checkout -q -- .
wc -l "$D/patch.diff"
