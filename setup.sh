#!/bin/bash
# Checks build from /repo themselves; this only shows that the simulator builds.
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$(mktemp -d); trap 'rm -rf "$B"' EXIT
bash "$D/sim/build.sh" "$B"
