#!/bin/bash
# Builds the monitors and the command line tool once, so that the compiler's
# cache is warm. Every check builds what it needs again from /repo.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_REPO="${VERIF_REPO:-/repo}"
. ./env.sh
for k in C01 C14 C18; do
	build_mon $k || exit 1
done
