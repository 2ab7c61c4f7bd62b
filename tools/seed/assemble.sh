#!/bin/bash
# assemble.sh SRC_TREE OUT [ID...]: writes OUT/<id>/ with patch, meta.json and the demonstration
here=$(cd "$(dirname "$0")" && pwd)
src=$1 out=$2
shift 2
python3 "$here/bugs.py" patch "$src" "$out" "$@"
[ $# = 0 ] && set -- $(ls "$here/demos" | sed 's/\.rs$//')
for id in "$@"; do
    cp "$here"/rig/* "$out/$id/"
    cp "$here/demos/$id.rs" "$out/$id/scenario.rs"
done
