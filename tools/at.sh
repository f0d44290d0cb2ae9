#!/bin/bash
# run a check against another revision of the repository: at.sh <rev> <id>...
set -e
w=$(mktemp -d /tmp/at.XXXX); git -C /repo worktree add -q --detach $w/r $1; shift
for i in "$@"; do VF_REPO=$w/r python3 $(dirname $0)/../check.py $i || true; done
git -C /repo worktree remove --force $w/r; rmdir $w
