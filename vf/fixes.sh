#!/bin/bash
# append "fixed:" lines for /repo commits after $2 (exclusive) for property $1
git -C /repo log --reverse --format='%h %s' $2..HEAD | sed 's/^\([0-9a-f]*\) fix: /fixed: property='$1' \1 /' >> /verif/known_findings.txt
