#!/bin/bash
# Builds the monitor against the working tree of the repository and runs one
# check: check.sh ID [quick|thorough]. Exit 0 held, 1 violation.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
. ./env.sh
if ! out=$(build_mon "$1" 2>&1); then
	echo "$out"
	echo "cannot build the monitor for $1"
	exit 2
fi
export GOCOVERDIR="$VERIF_DIR/.build/parent-cov"
mkdir -p "$GOCOVERDIR"
"$VERIF_DIR/.build/bin/$(mon_bin "$1")" run "$1"
rc=$?
find "$GOCOVERDIR" -type f -mmin +60 -delete
exit $rc
