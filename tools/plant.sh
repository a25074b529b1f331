#!/bin/bash
# Try planted bugs: tools/plant.sh [-n] ID... (development helper; no check
# uses it).  Each runs in a copy of /repo bound over /repo in a mount
# namespace of its own.  -n: skip build and tests.
notest=; [ "$1" = -n ] && { notest=1; shift; }
one() {
  id=$1; s=/verif/seeded/$id; w=/tmp/sd_$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  bash $s/demo.sh_ 2>/dev/null
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/sd_$id.ok 2>&1) || echo "$id: DEMO FAILS ON CLEAN TREE"
  rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply $s/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; return; }
  unshare -m bash -c "
    mount --bind $w /repo
    if [ -z '$notest' ]; then
      bash /opt/vp/build.sh >/tmp/sd_$id.build 2>&1 || echo '$id: BUILD FAILS'
      bash /opt/vp/test.sh /tmp/sd_$id.json >/tmp/sd_$id.test 2>&1
      python3 /tmp/cmp.py /tmp/sd_$id.json | tail -1 | sed 's/^/$id: tests /'
    fi
    cd /repo && timeout 300 bash $s/demo.sh >/tmp/sd_$id.bad 2>&1 && echo '$id: DEMO PASSES WITH THE BUG'
    cd /verif && timeout 900 ./run.py $prop >/tmp/sd_$id.check 2>&1
    echo \"$id: check $prop exit \$? \$(grep -m1 VIOLATION /tmp/sd_$id.check)\"
  "
  rm -rf "$w"
}
for i in "$@"; do one $i; done
