#!/bin/bash
# ded.sh patch.diff|- PROP...: deductive part only, on a patched copy of /repo
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/ded-XXXX); cp -a /repo "$w/repo"
[ "$1" = - ] || { p=$(realpath "$1"); (cd "$w/repo" && git apply "$p") || exit 3; }
shift
VERIF_REPO="$w/repo" timeout 600 /opt/venv/bin/python -W ignore -m dv.run "$@" 2>&1 | cut -c1-${W:-700}
rm -r "$w"
