#!/bin/bash
# the engine on tools/idioms.rs, and on the negations of the same statements (none of which may pass)
W=$(mktemp -d); trap 'find "$W" -delete' EXIT
here=$(cd "$(dirname "$0")/.." && pwd)
rsync -a --exclude .git --exclude evidence --exclude seeded "$here/" $W/verif/
ln -s /repo $W/repo
cp $here/tools/idioms.rs $W/verif/harness/src/i99.rs
sed 's/check_eq(/ncheck_eq(/g; s/\bcheck(/ncheck(/g; s/pub fn law_i/pub fn law_n/' $here/tools/idioms.rs > $W/verif/harness/src/n99.rs
echo 'fn ncheck(c: bool, l: &'"'"'static str) { check(!c, l); } fn ncheck_eq<T: PartialEq>(a: T, b: T, l: &'"'"'static str) { check(!(a == b), l); }' >> $W/verif/harness/src/n99.rs
printf 'pub mod i99;\npub mod n99;\n' >> $W/verif/harness/src/lib.rs
cd $W/verif && python3 -c "
import sys; sys.path.insert(0,'engine')
import build
build.dump('law_','$W/d.json')" || exit 2
python3 engine/check.py $W/d.json i99 | grep -E "^FAIL|what"
python3 engine/check.py $W/d.json n99 | grep -E "^(ok|FAIL)" | grep -v "obl 0/"
exit 0
