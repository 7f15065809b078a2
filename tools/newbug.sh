#!/bin/bash
# newbug.sh ID PROPERTY "needs" "what it breaks": store the working diff of /tmp/s and demo (stdin, Python) as a planted bug
d=/verif/seeded/$1
mkdir -p $d
git -C /tmp/s diff > $d/patch.diff
git -C /tmp/s checkout -q -- .
cat > $d/demo.py
cat > $d/demo.sh <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 CDTB_HASHES_DIR
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/hashes" "$tmp/w"
CDTB_HASHES_DIR=$tmp/hashes
for n in game lcu rst.xxh64 rst.xxh3 binentries binhashes bintypes binfields; do : > "$tmp/hashes/hashes.$n.txt"; done
exec_dir=$tmp/w
/opt/venv/bin/python -B "$here/demo.py" "$exec_dir"
S
python3 - "$@" <<'P'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open(f"/verif/seeded/{sys.argv[1]}/meta.json", 'w'), indent=1)
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
