# writes the "fixed:" section of KNOWN_FINDINGS from the fix commits in /repo (property given by position ranges, see P)
import subprocess
L=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.strip().split('\n')
P={'u_copy() must not close a stream':'C20','children':'C19','a dependency registered':'C19','the test scheduler':'C19','BST must release':'C20','u_hmap_new() and':'C20','u_hmap_put() must release':'C12','u_pwd_db_new':'C20','u_config_load() must not leak':'C20','u_config_add_child':'C20',"discard policy":'C13','bounded hmap':'C13','resolv_sun':'C20','u_rb_create() must release':'C20','a failed u_bst_push':'C20','u_uri_crumble':'C03','each address':'C03'}
R=[(2,3,'C04'),(4,5,'C05'),(6,9,'C06'),(10,13,'C15'),(14,19,'C16'),(20,23,'C14'),(24,30,'C12'),(31,35,'C02'),(36,39,'C07'),(40,45,'C08'),(46,46,'C07'),(47,47,'C08'),(48,48,'C07'),(49,55,'C09'),(56,57,'C10'),(58,61,'C11'),(62,78,'C17'),(79,200,'C18')]
EXTRA={}  # commit subject prefix -> property, for commits after the ranges above
try: from fixed_extra import EXTRA
except ImportError: pass
out=[]
for n,l in enumerate(L,1):
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]; p=None
    for k,v in EXTRA.items():
        if s.startswith(k): p=v
    if not p:
        for k,v in P.items():
            if k in s: p=v; break
    if not p: p=next(q for a,b,q in R if a<=n<=b)
    out.append('fixed: property=%s %s %s'%(p,h,s))
f='/verif/KNOWN_FINDINGS'; t=[x for x in open(f).read().split('\n') if x and not x.startswith('fixed: ')]
open(f,'w').write('\n'.join(t+out)+'\n')
