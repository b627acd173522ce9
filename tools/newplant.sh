#!/bin/bash
# newplant.sh ID PROP NEEDS BREAKS: takes the diff of scratch tree /tmp/pw as
# the patch of seeded/ID (demo.cpp from stdin), then resets the scratch tree.
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/pw diff > $d/patch.diff
git -C /tmp/pw checkout -q -- .
cat > $d/demo.cpp
cat > $d/demo.sh <<EOS
#!/bin/sh
# compiles demo.cpp against the tree in the current directory and runs it
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
g++ -std=c++17 -g -D_GLIBCXX_ASSERTIONS $DEMO_FLAGS -I"\$PWD" "\$d/demo.cpp" -o "\$t/demo" $DEMO_LIBS || exit 3
timeout 120 "\$t/demo"
EOS
python3 - "$2" "$3" "$4" > $d/meta.json <<'PY'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
PY
wc -l $d/patch.diff
