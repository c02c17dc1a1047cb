#!/bin/sh
# mk.sh ID PROPERTY: save the uncommitted change in /repo as seeded/ID (with demo.py from stdin) and undo it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
cat > $d/demo.py
cp /verif/tools/h.py $d/h.py
printf '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh
chmod +x $d/demo.sh
printf '{\n "property": "%s",\n "needs": "%s",\n "what_it_breaks": "%s"\n}\n' "$2" "$3" "$4" > $d/meta.json
