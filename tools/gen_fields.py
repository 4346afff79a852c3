"""Primes for field objects, in families that share low bits, high bits, size or residue class."""
import random
from sympy import isprime, nextprime
random.seed(7)
def cls(p): return '3' if p%4==3 else ('5' if p%8==5 else '1')
fams=[]
def fam(name, gen, n):
    out=[]; seen=set()
    for p in gen:
        if p not in seen and isprime(p) and p>5:
            seen.add(p); out.append(p)
        if len(out)==n: break
    fams.append((name,out))
import itertools
# small, all classes
fam('small',[7,11,13,19,23,29,31,37,43,47,53,59,61,67,71,79,83,101,103,107,109,127,131,139,149,151,157,163,167,173],30)
for name,bits,low in (('low8',24,8),('low16',40,16),('low32',72,32),('low32b',64,32),('low64',96,64),('low64b',160,64),('low128',256,128)):
    base=random.getrandbits(low)|3
    fam(name,( (random.getrandbits(bits-low)|1<<(bits-low-1))<<low | base for _ in itertools.count()),6)
for name,bits,low in (('low16m5',40,16),('low32m5',72,32),('low64m5',128,64)):
    base=(random.getrandbits(low)>>3<<3)|5
    fam(name,( (random.getrandbits(bits-low)|1<<(bits-low-1))<<low | base for _ in itertools.count()),6)
for name,bits,hi in (('high32',64,32),('high64',96,64),('high64b',128,64)):
    base=(random.getrandbits(hi)|1<<(hi-1))<<(bits-hi)
    fam(name,( base|random.getrandbits(bits-hi)|1 for _ in itertools.count()),8)
# neighbours: consecutive primes at byte-length boundaries
for b in (8,16,32,64,128,255):
    def g(b=b):
        p=1<<b
        from sympy import prevprime
        q=p
        for _ in range(40):
            q=prevprime(q); yield q
        q=p
        for _ in range(40):
            q=nextprime(q); yield q
    fam(f'near2^{b}',g(),8 if b<100 else 6)
with open('harness/model/src/primes.rs','w') as f:
    f.write('// Generated by tools/gen_fields.py. Do not edit.\n')
    f.write('pub static FAMILIES:&[(&str,&[&str])]=&[\n')
    for n,ps in fams:
        f.write(f'("{n}",&[{",".join(chr(34)+str(p)+chr(34) for p in ps)}]),\n')
    f.write('];\n')
print([(n,[cls(p) for p in ps]) for n,ps in fams])
