#!/bin/bash
# Which lines of /repo the checks reach:  tools/coverage.sh SECS PROP...
# Works in a scratch copy; writes /tmp/rsim-cov.txt (file:line, properties that reach it).
secs=$1; shift
d=$(mktemp -d /tmp/rsim-cov.XXXX)
cp -a /verif/harness/. "$d"/ && rm -rf "$d/target"
cd "$d"
sed -i 's/-sanitizer-coverage-level=3/-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-pc-table -Cdebuginfo=1/' wrapper.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER="$d/wrapper.sh"
sed -i 's/^debug = 0/debug = 1/' Cargo.toml
cargo build --offline -q 2>build.log || { tail -20 build.log; exit 2; }
for p in "$@"; do
  mkdir -p o
  RSIM_OUT=$d/o RSIM_COVOUT=$d/cov.$p target/debug/rsim check --prop "$p" --secs "$secs" > out.$p 2>&1 || tail -3 out.$p
done
cut -d' ' -f1 "cov.$1" | llvm-symbolizer --obj=target/debug/rsim --output-style=GNU --no-inlines -C -f > sym.txt
python3 - "$@" <<'P' > /tmp/rsim-cov.txt
import sys
s=open('sym.txt').read().split('\n')
loc=[(s[i],s[i+1]) for i in range(0,len(s)-1,2)]
hits={}
for p in sys.argv[1:]:
    for i,l in enumerate(open('cov.'+p)):
        if i<len(loc) and '/repo/src' in loc[i][1]:
            h=hits.setdefault((loc[i][1].replace('/repo/src/',''),loc[i][0].split('::h')[0]),{})
            h.setdefault(i,set())
            if l.split()[1]=='1': h[i].add(p)
for k in sorted(hits,key=lambda k:(k[0].split(':')[0],int(k[0].split(':')[1].split()[0] if k[0].split(':')[1].split()[0].isdigit() else 0))):
    for i,v in sorted(hits[k].items()):
        print(k[0],k[1],' '.join(sorted(v)) or 'NEVER')
P
[ -n "${KEEP:-}" ] || rm -rf "$d"
grep -c NEVER /tmp/rsim-cov.txt; wc -l < /tmp/rsim-cov.txt
