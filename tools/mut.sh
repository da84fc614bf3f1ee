#!/bin/bash
# mut.sh PROP PYFILE-WITH-EDITS : run one check against an edited copy of /repo
# (VMC_REPO), used while developing; never by the registered commands.
set -e
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $D/
( cd $D && python3 "$2" )
cd /verif && VMC_REPO=$D python3 check.py $1 | tail -${3:-6}
rm -rf "$D"
