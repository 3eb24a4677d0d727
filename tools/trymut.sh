#!/bin/bash
# trymut.sh PATCH PROP... : runs checks against a scratch copy of /repo with a patch applied (development helper)
P=$(readlink -f $1); shift
T=$(mktemp -d /tmp/trymut.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo $T/repo
git -C $T/repo apply $P || exit 9
export SIM_REPO=$T/repo SIM_BUILD=${TRYMUT_BUILD:-/tmp/trymut-build}
for id in "$@"; do
 o=$(SIM_SECS=${SECS:-20} python3 /verif/check.py $id 2>&1); rc=$?
 echo "[$id rc=$rc] $(echo "$o" | cut -c1-260 | head -3 | tr '\n' '|')"
done
