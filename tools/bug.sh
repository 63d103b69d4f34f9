#!/bin/bash
# dev aid: bug.sh ID PROP FIRST COUNT — builds the simulator from a scratch copy of /repo with seeded/ID applied and runs seeds
. /opt/vp/env.sh
R=/tmp/bug.$1
mkdir -p "$R/repo" && git -C /repo archive HEAD | tar x -C "$R/repo" && (cd "$R/repo" && git init -q . && git apply "/verif/seeded/$1/patch.diff") || exit 1
SIM_ROOT=/tmp/vw SIM_REPO="$R/repo" /tmp/simctl build "$R/w" >/dev/null || exit 1
python3 /verif/tools/try.py "$R/w/simbin" $2 $3 $4 | grep -v '^  '
rm -rf "$R"
