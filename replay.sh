#!/bin/bash
# replay.sh FILE: rebuilds the simulator from /repo and replays one case file.
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$(mktemp -d); trap 'rm -rf "$B"' EXIT
P=$(sed -n 's/^prop //p' "$1" | head -1)
F=$(sed -n 's/^flavour //p' "$1" | head -1); F=${F:-plain}
bash "$D/sim/build.sh" "$B" "$F"; mkdir "$B/cwd"; F1=$(realpath "$1"); cd "$B/cwd"; "$B/simrun" --prop "$P" --replay "$F1"
