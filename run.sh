#!/bin/bash
# run.sh ID: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
id=$1
mkdir -p evidence
export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
give_up() {
  # not decided: report it as such, never as held
  printf '%s: [decided] %s\n' "$id" "$1" | tee "evidence/$id.violation.txt"
  cat >"evidence/$id.json" <<J
{"property": "$id", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-0}, "level": "other",
 "coverage": {"explanation": "undecided: $1"}, "assumptions": [], "violations": 1, "wall_s": $SECONDS}
J
  echo "VIOLATION property=$id replay=$PWD/evidence/$id.violation.txt"
  exit 1
}
if [ ! -x bin/fincheck ] || [ -n "$(find fincheck -maxdepth 1 -name '*.go' -newer bin/fincheck -print -quit)" ]; then
  bash setup.sh || give_up "the analyser could not be built"
fi
rm -f "evidence/$id.json"
timeout 800 bin/fincheck -root "$PWD" -repo /repo -property "$id"
code=$?
if [ $code -ne 0 ] && [ $code -ne 1 ] || [ ! -s "evidence/$id.json" ]; then
  give_up "the analysis ended with status $code"
fi
exit $code
