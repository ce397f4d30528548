#!/bin/bash
# try_revert.sh COMMIT ID: run check ID with one fix commit undone, then restore
set -e
git -C /repo diff --quiet
git -C /repo show "$1" | git -C /repo apply -R
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif && bash run.sh "$2" quick | grep -E "VIOL|quick:" | head -3 || true
