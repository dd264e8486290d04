#!/bin/sh
# check.sh PROPERTY: decides one property on the current tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
sh "$here/setup.sh" || { echo "the verifier does not build"; exit 2; }
GOV_VERIF=$here exec "$here/bin/gov" check "$1"
