#!/bin/bash
# mkseed.sh <id>: the edit is read from a scratch copy /tmp/seed/repo, made with
#   rm -rf /tmp/seed; mkdir /tmp/seed; cp -a /repo /tmp/seed/repo
# writes seeded/<id>/patch.diff
set -e
cd /tmp/seed/repo
mkdir -p /verif/seeded/$1
git diff > /verif/seeded/$1/patch.diff
cat /verif/seeded/$1/patch.diff
