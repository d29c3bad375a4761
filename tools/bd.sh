#!/bin/sh
# build one driver against the current tree: tools/bd.sh NAME
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'.')
from vlib import build as B
d=B.build(('core','filters'))
print(B.build_driver('$1', d))"
