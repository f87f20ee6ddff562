#!/bin/bash
# seedall.sh SPEC [ids]: tools/mkseed.py over a description file, four shards at a time
cd "$(dirname "$0")/.." || exit 1
spec=$1; shift
ids=("$@")
if [ ${#ids[@]} = 0 ]; then
  ids=($(python3 -c "import runpy,sys; print(' '.join(s['id'] for s in runpy.run_path(sys.argv[1])['SEEDS']))" "$spec"))
fi
n=${#ids[@]}; out=$(mktemp -d)
for k in 0 1 2 3; do
  l=()
  for ((i=k;i<n;i+=4)); do l+=("${ids[i]}"); done
  [ ${#l[@]} -gt 0 ] && python3 tools/mkseed.py "$spec" "${l[@]}" > "$out/$k" 2>&1 &
done
wait
cat "$out"/*
rm -r -- "$out"
