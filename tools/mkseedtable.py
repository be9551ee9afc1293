# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); fs=sorted(set(re.findall(r'^\+\+\+ b/\S*/(\S+)',open(d+'/patch.diff').read(),re.M)))
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],', '.join(fs),m['needs'].replace('|','/')))
p=V+'/DESIGN.md'; s=open(p).read(); a='<!-- seeded -->\n'; b='<!-- /seeded -->'
if a in s and rows:
    i=s.index(a)+len(a); j=s.index(b); s=s[:i]+'| planted bug | caught by | file | needs |\n|---|---|---|---|\n'+'\n'.join(sorted(rows,key=lambda r:r.split('|')[2]))+'\n'+s[j:]
    open(p,'w').write(s)
