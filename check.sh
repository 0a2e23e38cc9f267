#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 1
exec python3 analysis/main.py "$1" "${2:-quick}"
