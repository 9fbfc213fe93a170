#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE           run a replay file again
# check.sh setup                 build everything once (warms the build cache)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
exec python3 "$here/tools/check.py" "$@"
