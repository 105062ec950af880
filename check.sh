#!/bin/bash
# usage: check.sh <property> [quick|thorough]    (or: check.sh <property> --replay FILE)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
id=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
ulimit -c 0
exec python3-vt check.py "$id" "$@"
