#!/bin/bash
# replay.sh FILE : replays a recorded violation against /repo's working tree (exit 1 if it shows again)
cd "$(dirname "$0")" && SIM=$(./build.sh) && exec "$SIM" --replay "$1"
