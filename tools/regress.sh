#!/bin/bash
# Discharge every contract from a copy of the working tree of /verif; prints only what is not fully proved.
D=$(mktemp -d /tmp/vcopy.XXXX); export D
cp -a /verif/contracts /verif/pyvc /verif/tools /verif/prove.py /verif/vp $D/
cd $D || exit 1
one() {
  cd $D && MPLBACKEND=Agg timeout 1500 /opt/venv/bin/python -W ignore tools/prove.py "$1" > $D/$1.log 2>&1
  { echo "== $1"; grep -vE " ok +paths=.*\{'proved': [0-9]*\} " $D/$1.log | cut -c1-220; }
}
export -f one
printf '%s\n' ${@:-$(ls contracts | sed -n 's/^\(C[0-9]*\)\.py/\1/p')} | xargs -P ${P:-2} -I{} bash -c 'one {}'
cd /; rm -rf $D
