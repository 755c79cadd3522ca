#!/bin/bash
# Decides one property on the current tree of /repo. usage: check.sh <property> [quick|thorough]
VERIF="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
parts=(plain)
case "$1" in
V17) parts+=(race) ;;
V13 | V21) parts+=(cli) ;;
esac
"$VERIF/build.sh" "${parts[@]}" || { echo "the harness does not build against /repo"; exit 2; }
exec "$VERIF/.build/vh" -prop "$1" -tier "$tier" -verif "$VERIF"
