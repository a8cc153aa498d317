#!/bin/bash
# usage: box.sh COMMAND...   runs a command with copies of /repo and /verif in their places
box=$(mktemp -d /tmp/boxXXXXXX)
cp -a /repo "$box/repo" && cp -a /verif "$box/verif"
BOXED=1 BOX=$box unshare -Urm bash -c 'mount --bind "$BOX/repo" /repo && mount --bind "$BOX/verif" /verif && cd /verif && exec "$@"' box "$@"
rc=$?
rm -rf "$box"
exit $rc
