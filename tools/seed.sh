#!/bin/bash
# seed.sh ID : take the current diff of the scratch tree /tmp/w/rs against /repo HEAD as the planted bug ID, verify it, keep it.
# demo.sh and meta.json must already lie in /verif/seeded/ID.
set -e
D=/verif/seeded/$1
git -C /tmp/w/rs diff > $D/patch.diff
[ -s $D/patch.diff ]
git -C /tmp/w/rs checkout -q -- .
git -C /repo apply --check $D/patch.diff
echo ok $1
