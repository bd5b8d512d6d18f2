#!/bin/bash
# mkseed.sh ID PROPERTY FILE PERL NEEDS BREAKS  < demo.py
# plants a change in /tmp/w/repo, keeps it under seeded/ID; then run tools/tryseed.sh ID
set -e
d=/verif/seeded/$1; mkdir -p $d
cd /tmp/w/repo; git checkout -q -- .
perl -0pi -e "$4" $3
git diff > $d/patch.diff; git checkout -q -- .
[ -s $d/patch.diff ] || { echo "NO CHANGE $1"; exit 1; }
cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
X
python3 - "$2" "$5" "$6" > $d/meta.json <<'X'
import sys, json
print(json.dumps(dict(property=sys.argv[1], needs=sys.argv[2], what_it_breaks=sys.argv[3]), indent=1))
X
