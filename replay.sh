#!/bin/sh
# replay.sh <file>: runs a recorded violation again, exactly.
exec "$(dirname "$0")/check.sh" replay "$(realpath "$1")"
