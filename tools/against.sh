#!/bin/bash
# tools/against.sh 'SHELL COMMANDS run in a scratch copy of /repo' COMMAND... : run COMMAND in /verif with that copy
# bind-mounted over /repo (private mount namespace), e.g.
#   tools/against.sh 'git revert -n abc123' ./check.sh C13 quick
W=$(mktemp -d /tmp/against.XXXXXX); mkdir -p "$W/v"; cp -a /repo "$W/repo"
for x in check.sh setup.sh checks vlib tools known_findings.json properties.jsonl MANIFEST.json; do cp -a /verif/$x "$W/v/"; done
mkdir -p "$W/v/evidence" "$W/v/replays" "$W/v/seeded"
(cd "$W/repo" && bash -c "$1") || exit 2
find "$W/repo" -name __pycache__ -not -path '*/.git/*' -prune -exec rm -rf {} +
shift
unshare -rm bash -c "mount --bind $W/repo /repo; mount --bind $W/v /verif; cd /verif; \"\$@\"" _ "$@"; rc=$?
rm -rf "$W"; exit $rc
