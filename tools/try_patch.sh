#!/bin/bash
# try_patch.sh PATCH ID...: run checks with a patch applied, then restore
git -C /repo diff --quiet || exit 2
git -C /repo apply "$1" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
shift
for i in "$@"; do cd /verif && bash run.sh "$i" quick | grep -E "VIOL|quick:" | head -3; done
