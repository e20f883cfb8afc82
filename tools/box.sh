#!/bin/bash
# box.sh PATCH ID...: runs the checks ID... with PATCH ("-" for none) applied to
# /repo, in a private mount namespace where /repo and /verif are overlays: neither
# is changed. One line per check. TIER=thorough for that tier. Needs root.
p=$1; shift; [ "$p" = - ] || p=$(readlink -f "$p")
b=$(mktemp -d /tmp/box.XXXXXX); mkdir "$b"/{ru,rw,vu,vw}
unshare -m bash -c '
b=$1; p=$2; shift 2
mount -t overlay overlay -o lowerdir=/repo,upperdir=$b/ru,workdir=$b/rw /repo || exit 1
mount -t overlay overlay -o lowerdir=/verif,upperdir=$b/vu,workdir=$b/vw /verif || exit 1
[ "$p" = - ] || git -C /repo apply "$p" || { echo "does not apply"; exit 1; }
for id in "$@"; do
  s=$SECONDS
  python3 /verif/check.py $id --tier ${TIER:-quick} > $b/out 2>&1; v=$?
  echo "$(basename $(dirname "$p"))/$(basename "$p") $id rc=$v $((SECONDS-s))s $(grep -m1 VIOLATION $b/out | cut -c1-100) $(grep -m1 -B1 VIOLATION $b/out | head -1 | cut -c1-260)"
  [ $v = 0 ] || [ $v = 1 ] || tail -5 $b/out | cut -c1-300
done
' x "$b" "$p" "$@"
rm -r "$b"
