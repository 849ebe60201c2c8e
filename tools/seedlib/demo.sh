#!/bin/bash
# run demo.py against /repo's code, with the project's own configuration pointed at empty local stand-ins
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 GIT_TERMINAL_PROMPT=0
OFF=$(mktemp -d)
trap 'rm -rf "$OFF"' EXIT
export XDG_CACHE_HOME=$OFF/cache XDG_CONFIG_HOME=$OFF/config HOME=$OFF
export MCCODEANTLR_MCCODE_POOCH__REGISTRY=$OFF/empty.git MCCODEANTLR_MCCODE_POOCH__TAG=v0.0.0
mkdir -p "$XDG_CONFIG_HOME"
git init -q --bare -b main "$OFF/empty.git"
tree=$(git -C "$OFF/empty.git" mktree </dev/null)
commit=$(git -C "$OFF/empty.git" -c user.name=offline -c user.email=offline@localhost commit-tree "$tree" -m empty)
git -C "$OFF/empty.git" tag v0.0.0 "$commit"
for n in mcstas mcxtrace libc; do
    mkdir -p "$XDG_CACHE_HOME/mccode_antlr/$n/v0.0.0"
    : > "$XDG_CACHE_HOME/mccode_antlr/$n/v0.0.0/$n-registry.txt"
done
export DEMO_SCRATCH=$OFF
PYTHONPATH=/repo/src timeout 250 python -B "$HERE/demo.py"
