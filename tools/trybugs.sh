#!/bin/bash
# trybugs.sh [ID...]: run every planted bug's own property check (and, with ALL=1, every check) on a scratch copy.
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
bin=${BIN:-/verif/bin/lincheck}
one() {
  id=$1
  git clone -q /repo "$d/$id" && (cd "$d/$id" && git apply "/verif/seeded/$id/patch.diff") || { echo "$id APPLY"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mkdir -p "$d/v$id"; cp /verif/known_findings.txt "$d/v$id/" 2>/dev/null; ln -sfn /verif/lincheck "$d/v$id/lincheck"
  if [ -n "$ALL" ]; then
    out=$($bin -all -repo "$d/$id" -verif "$d/v$id" 2>&1)
  else
    out=$($bin -prop $p -repo "$d/$id" -verif "$d/v$id" 2>&1)
  fi
  if echo "$out" | grep -q "VIOLATION property=$p "; then s=CAUGHT; else s=missed; fi
  echo "$id $p $s $(echo "$out" | grep -o 'VIOLATION property=[A-Z0-9]*' | sort -u | sed 's/.*=//' | tr '\n' ' ') :: $(echo "$out" | grep -v VIOLATION | grep ' rule ' | head -1 | cut -c1-220)"
  rm -rf "$d/$id" "$d/v$id"
}
export -f one; export d bin ALL
printf '%s\n' "${ids[@]}" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}' | sort
