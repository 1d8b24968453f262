#!/bin/bash
# Builds everything once, which also warms Go's build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/booklit-setup-XXXXXX)
trap 'rm -rf "$work"' EXIT
"$here/check.sh" --build "$work"
