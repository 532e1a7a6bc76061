#!/bin/bash
# mkdiff.sh ID PROPERTY: saves the changes in the scratch copy /tmp/pb as seeded/ID/patch.diff and restores the copy
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/pb diff -- include > $d/patch.diff
git -C /tmp/pb checkout -q -- .
wc -l $d/patch.diff
