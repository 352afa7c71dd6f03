#!/bin/bash
# Runs a command on copies of /repo and /verif that it sees in their place (tools/apart.sh CMD..), so that
# bugs can be applied while something else uses the real ones.  Not used by any check.
d=${APART:-/tmp/w/apart}
mkdir -p "$d"
rsync -a --delete /repo/ "$d/repo/" 2>/dev/null || { rm -rf "$d/repo"; cp -a /repo "$d/repo"; }
mkdir -p "$d/verif"
if command -v rsync >/dev/null; then rsync -a --delete --exclude build --exclude evidence --exclude replays /verif/ "$d/verif/"
else find "$d/verif" -mindepth 1 -maxdepth 1 ! -name build -exec rm -rf {} + ; tar -C /verif --exclude=./build -cf - . | tar -C "$d/verif" -xf -; fi
git -C "$d/repo" checkout -q -- .
exec unshare -m sh -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$d" "$@"
