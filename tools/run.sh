#!/bin/bash
# tools/run.sh BIN PROP GROUPS DEADLINE OUT [SEED] [MAXFAIL]: 8 workers (for development)
mkdir -p "$5"; find "$5" -type f -delete
for i in 0 1 2 3 4 5 6 7; do
  "$1" worker --prop "$2" --seed "${6:-1}" --from $i --step 8 --groups "$3" --deadline "$4" --out "$5" --max-fail "${7:-3}" &
done
wait
cat "$5"/result.*.json | python3 -c '
import sys,json
t={};w=0
for l in sys.stdin:
    l=l.strip()
    if not l: continue
    d=json.loads(l)
    w=max(w,d.pop("wall"))
    for k,v in d.pop("counters").items(): t["."+k]=t.get("."+k,0)+v
    for k,v in d.items(): t[k]=t.get(k,0)+v
print("'"$2"'",{k:v for k,v in t.items() if k[0]!="."},"wall",w)
print("   ",{k[1:]:v for k,v in t.items() if k[0]=="."})
'
grep -ah "^# klass" "$5"/fail.* 2>/dev/null | sort | uniq -c
