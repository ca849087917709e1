#!/bin/bash
# tools/trypar.sh JOBS ID...: tools/trybug.sh for several bugs at the same time, each in a mount namespace of its own
jobs=$1; shift
one() {
  id=$1
  t=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo $t/repo; cp -a ${VERIF:-/verif} $t/verif; cp -a /opt/vp $t/vp; mkdir $t/tmp; chmod 1777 $t/tmp
  unshare -m bash -c "mount --make-rprivate /; mount --bind $t/repo /repo; mount --bind $t/verif /verif; mount --bind $t/vp /opt/vp; mount --bind $t/tmp /tmp; cd /verif; tools/trybug.sh $id $CHECKS" </dev/null
  rm -rf "$t"
}
export -f one
export CHECKS VERIF
printf '%s\n' "$@" | xargs -P "$jobs" -I{} bash -c 'one {}'
