"""For each planted bug: are all removed lines (or, for pure insertions, the neighbouring lines) original lines of the repository?"""
import subprocess,re,sys,glob,os
base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
cache={}
def blame(f):
    if f not in cache:
        out=subprocess.check_output(['git','-C','/repo','blame','-s','-l',f],text=True).splitlines()
        cache[f]=[l.split()[0].lstrip('^')[:39] for l in out]
    return cache[f]
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    if len(sys.argv)>1 and sys.argv[1] not in d: continue
    f=None; bad=0; orig=0; n=0
    for l in open(d):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'):
            if base.startswith(blame(f)[n-1]): orig+=1
            else: bad+=1; print('   mine:',l.rstrip())
            n+=1
        elif l.startswith(' '): n+=1
    print(os.path.basename(os.path.dirname(d)),'original',orig,'mine',bad)
