#!/bin/bash
# usage: check.sh PROPERTY   (decides one property of /repo's working tree)
d="$(cd "$(dirname "$0")" && pwd)"
[ -x "$d/bin/analyzer" ] || bash "$d/setup.sh" || exit 2
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local
exec "$d/bin/analyzer" check "$1"
