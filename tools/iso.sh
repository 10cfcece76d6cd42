#!/bin/bash
# iso.sh <name> <command…>   run a command with private copies of /repo and /verif mounted over the
# real ones (own mount namespace; nothing outside /tmp/iso/<name> changes). For planting bugs
# while something else is using the real folders. The copies are kept for the next use.
set -e
d=/tmp/iso/$1; shift
mkdir -p "$d/repo" "$d/verif"
[ -n "$ISO_KEEP" ] || rsync -a --delete /repo/ "$d/repo/"
rsync -a --exclude=.git /verif/ "$d/verif/"
[ -n "$ISO_KEEP" ] || git -C "$d/repo" checkout -q -- .
exec unshare -Urm sh -c 'mount --bind '"$d/repo"' /repo && mount --bind '"$d/verif"' /verif && cd /verif && exec "$@"' iso "$@"
