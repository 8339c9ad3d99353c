"""Lists, for the file a probed check wrote, the predicates no argument of a public function ever satisfied."""
import sys,re,collections
NUM=['zero','neg','pos','>1e+03','>1e+04','>1e+05','>1e+06','>1e+09','<1e+00','<1e-02','<1e-04','<1e-06','<1e-08','one','whole','tens','hundreds','odd','frac','more-than-1e+02','more-than-1e+04','more-than-1e+05','more-than-1e+08']
STEP=['step==','step>','step<','step close','step far']
LEN=['len==0','len==1','len==2','len==3','nilslice']+['len>%d'%x for x in (5,10,20,30,50,64,100,128,200,256,500,512,1000)]
STR=['empty','some','space','padded','control','percent','quote','lower','upper','unicode','digit','sign-','sign_','sign/','sign:','sign.','sign,']+['len>%d'%x for x in (1,3,4,5,8,12,16,20,32,64,100)]
TIME=['zero','some','nonutc','ns','wholesec','before1970','after2037','midnight','monotonic']
def main(c):
    d=collections.defaultdict(set); rel=collections.defaultdict(set)
    for l in open(c):
        l=l.rstrip('\n')
        if ' ? ' in l:
            p,r=l.rsplit(' ',1); rel[p].add(r); continue
        m=re.match(r'(\S+ a\d\S*) (.*)$',l)
        if m: d[m.group(1)].add(m.group(2))
    for p in sorted(d):
        h=d[p]
        if 'nonutc' in h or 'wholesec' in h or 'ns' in h: want=TIME
        elif 'true' in h or 'false' in h: want=['true','false']
        elif any(x.startswith('len==') for x in h) or ('len>5' in h and 'some' not in h): want=LEN
        elif 'some' in h or 'empty' in h: want=STR
        elif any('%' in x for x in h): want=['zero','neg','one','>5','>14','>60','>100','>200','>256','>500','>1000','>10000','>1000000000','>2147483647','%2!=0','%60!=0','%60==0','%3600==0','%86400==0','%604800==0']
        else: want=NUM
        if '[]' in p and want is NUM: want=NUM+STEP
        miss=[w for w in want if w not in h]
        if miss: print(c,p,'MISSING',' '.join(miss))
    for p in sorted(rel):
        if len(rel[p])<3: print(c,p,'only',' '.join(sorted(rel[p])))
for c in sys.argv[1:]: main(c)
