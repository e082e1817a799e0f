#!/bin/bash
# vx.sh UNIT [verus args]: extract a unit from /repo and run Verus on it (development helper)
u=$1; shift
d=/verif/.build/units; mkdir -p $d
/verif/.build/target/release/vextract /repo /verif/contracts/$u.vc $d/$u.rs $d/$u.json || exit 3
grep -q '^fn main' $d/$u.rs || printf '\nfn main() {}\n} // verus!\n' >> $d/$u.rs
cd $d && verus $u.rs --multiple-errors 5 --triggers-mode silent "$@" 2>&1
