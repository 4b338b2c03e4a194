#!/bin/bash
# Builds the harness once, which warms the build cache the checks use.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/gosim.XXXXXX) || exit 1
trap 'rm -rf -- "$d"' EXIT
bash "$here/build.sh" "$d"
