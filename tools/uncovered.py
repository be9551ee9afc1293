#!/usr/bin/env python3
"""List the library's basic blocks no run reached.
   SIM_COVOUT=/tmp/cov ./build/simrun --prop C01 ... (appends, so several properties can be merged); tools/uncovered.py build/simrun /tmp/cov"""
import sys,subprocess,re,collections
exe,cov=sys.argv[1:3]; hit={int(x) for x in open(cov)}
pcs=[]; nxt=False
for l in subprocess.Popen(['objdump','-d','--no-show-raw-insn',exe],stdout=subprocess.PIPE,text=True).stdout:
    m=re.match(r'\s+([0-9a-f]+):\t(.*)',l)
    if not m: continue
    if nxt: pcs.append(int(m.group(1),16)); nxt=False
    if '<__sanitizer_cov_trace_pc>' in m.group(2) and m.group(2).startswith('call'): nxt=True
un=[p for p in pcs if (p*0x9E3779B97F4A7C15 & (1<<64)-1)>>(64-18) not in hit]
print(len(pcs),'blocks,',len(un),'not reached')
out=subprocess.run(['addr2line','-f','-e',exe]+[hex(p-1) for p in un],capture_output=True,text=True).stdout.split('\n')
by=collections.defaultdict(set)
for fn,loc in zip(out[0::2],out[1::2]):
    f,_,n=loc.partition(' ')[0].rpartition(':')
    if n.isdigit(): by[(f.split('/')[-1],f)].add((int(n),fn))
for (f,path),s in sorted(by.items()):
    if '/toolbox/' not in path: continue
    src=open(path,errors='replace').read().split('\n')
    for n,fn in sorted(s): print(f'{f}:{n} {fn}: {src[n-1].strip()[:110]}')
