"""Development helper: python3 instrument.py SCRATCH_REPO puts a probe at the start of every public function of a
scratch copy of the repository (copy probe.go.txt to SCRATCH_REPO/probe/probe.go first). Run a check with
VERIF_REPO=SCRATCH_REPO PROBE_FILE=out/Cxx, then python3 missing.py out/Cxx lists what no input ever was."""
import sys
ROOT = sys.argv[1]
import re,os,glob
for f in glob.glob(ROOT + '/**/*.go',recursive=True):
    if f.endswith('_test.go') or '/probe/' in f: continue
    s=open(f).read(); n=0
    def rep(m):
        global n
        recv,name,params=m.group(1),m.group(2),m.group(3)
        if not name[0].isupper() : return m.group(0)
        args=[]
        if recv:
            args.append(recv.strip('()').split()[0])
        for part in params.split(','):
            part=part.strip()
            if not part: continue
            args.append(part.split()[0])
        n+=1
        label=(recv.strip('() ').split()[1].lstrip('*')+'.' if recv else '')+name
        return m.group(0)+'\n\tprobe.Hit("%s"%s)\n'%(label,''.join(', '+a for a in args))
    s2=re.sub(r'^func (\([^)]*\) )?(\w+)\(([^)]*)\)[^\n]*\{$',lambda m:rep(type('M',(),{'group':lambda self,k=0:m.group(k) if k==0 else (m.group(1) or '' if k==1 else m.group(k))})()),s,flags=re.M)
    if s2!=s:
        s2=re.sub(r'^(package \w+\n)',r'\1\nimport "github.com/vanclief/finmod/probe"\n',s2,count=1,flags=re.M)
        open(f,'w').write(s2)
