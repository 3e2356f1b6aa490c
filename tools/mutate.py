#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS SEED MINUTES [FILES]: random one-line mutants of
/repo's sources in scratch copies (/tmp/mu/WORKER), screened by the stable
tests, then by the quick checks until one reports.  One JSON line per mutant
that passes the tests goes to /tmp/mu/results.jsonl."""
import sys,os,re,random,subprocess,json,time,shutil,fcntl
W,N,SEED,MIN=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]),float(sys.argv[4])
ONLY=sys.argv[5:] 
B=f'/tmp/mu/{W}'; R=B+'/repo'; V=B+'/v'
FILES={'src/engine.rs':'C01 C02 C03 C13 C14 C12 C05 C06 C07 C04 C08 C09 C10 C11 C21 C23 C25 C15',
 'src/catalog/collections.rs':'C16 C17 C18 C19 C22','src/catalog/bitstring.rs':'C20 C24','src/catalog/trie.rs':'C24',
 'src/macros.rs':'C25 C01 C14','src/parse_val.rs':'C15 C14','src/reflect.rs':'C15 C14 C13'}
if not os.path.isdir(R):
    os.makedirs(V,exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',R])
    subprocess.check_call(['rsync','-a','--exclude','.lock','/verif/harness','/verif/check','/verif/KNOWN_FINDINGS',V+'/'])
else:
    subprocess.check_call(['rsync','-a','--exclude','.lock','--exclude','target','/verif/harness','/verif/check','/verif/KNOWN_FINDINGS',V+'/'])
subprocess.check_call(['sed','-i',f's#"/repo"#"{R}"#',V+'/harness/Cargo.toml'])
subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
env=dict(os.environ,HOME='/root',RUSTUP_TOOLCHAIN='stable',RUSTC_WRAPPER='',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only')
for k in list(env):
    if k.startswith('ADAPTON_'): del env[k]
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def strip_tests(lines):
    # index of the first line of a trailing cfg(test) region, if any
    return lines
PAIRS=[('n1','n2'),('nm1','nm2'),('l','r'),('left','right'),('hd','tl'),('lo','hi'),('fst','snd'),('p1','p2'),('t1','t2'),('l1','l2'),('r1','r2'),('x','y'),('a','b'),('lev','level'),('ln','rn'),('lx','rx'),('left_dir','right_dir'),('ContentDiff','ContentSame'),('LocFresh','LocExists'),('Observe','Allocate'),('Force','Alloc'),('CleanRec','CleanEval'),('CleanEdge','CleanRec'),('Dirty','Remove'),('RefGet','CompCacheHit'),('CompCacheHit','CompCacheMiss'),('preds','succs'),('Up','Dn'),('L2','R2'),('push','insert'),('Left','Right'),('rev','fwd'),('min','max'),('value','length'),('res','cache')]
def muts(line):
    out=[]
    code=line.split('//')[0]
    if not code.strip() or code.strip().startswith(('use ','#','pub mod','extern','/*','*','mod ')): return out
    def sub(pat,rep):
        for m in re.finditer(pat,code):
            out.append(code[:m.start()]+m.expand(rep)+line[m.end():])
    sub(r' == ',' != '); sub(r' != ',' == '); sub(r' && ',' || '); sub(r' \|\| ',' && ')
    sub(r'\btrue\b','false'); sub(r'\bfalse\b','true')
    sub(r' < ',' <= '); sub(r' > ',' >= '); sub(r' <= ',' < '); sub(r' >= ',' > ')
    sub(r' \+ ',' - '); sub(r' - ',' + '); sub(r' << ',' >> '); sub(r' >> ',' << ');sub(r' \| ',' & ')
    sub(r'(?<![\w.])(\d)(?![\w.])', '1' ) ; sub(r'(?<![\w.])1(?![\w.])','0')
    sub(r'\.rev\(\)',''); sub(r'is_some\(\)','is_none()'); sub(r'is_none\(\)','is_some()')
    sub(r'\bif (?!let)','if true || '); sub(r'\bif (?!let)','if false && '); sub(r'\bif (?!let)','if !');
    sub(r'Some\(([^()]*)\)','None')
    sub(r'\b1\.|(?<=\.)1\b','0'); sub(r'(?<=\w\.)0\b','1')
    for a,b in PAIRS:
        sub(r'\b%s\b'%a,b); sub(r'\b%s\b'%b,a)
    for m in re.finditer(r'\((\w+(?:\.clone\(\))?), ?(\w+(?:\.clone\(\))?)\)',code):
        out.append(code[:m.start()]+'(%s, %s)'%(m.group(2),m.group(1))+line[m.end():])
    s=code.strip()
    if s.endswith(';') and not s.startswith(('let ','return','use ','}','type ','static')) and all(code.count(o)==code.count(c) for o,c in ('()','[]','{}')):
        ind=code[:len(code)-len(code.lstrip())]
        out.append(ind+';\n')
    res=[]
    for o in out:
        if not o.endswith('\n'): o+='\n'
        if o!=line and o not in res: res.append(o)
    return res
rng=random.Random(SEED*1000+W)
allm=[]
for f in FILES:
    if ONLY and f not in ONLY: continue
    ls=open('/repo/'+f).readlines()
    intest=False; inc=False
    for i,l in enumerate(ls):
        if '/*' in l and '*/' not in l: inc=True
        if '*/' in l: inc=False; continue
        if inc or 'panic!' in l or 'println' in l: continue
        if re.search(r'#\[(test|cfg\(test\))\]|^mod tests?\b',l): intest=True
        if intest and l.startswith('}'): intest=False; continue
        if intest: continue
        for m in muts(l): allm.append((f,i,m))
allm=[m for k,m in enumerate(sorted(allm)) if True]
r0=random.Random(SEED); r0.shuffle(allm)
# balance: engine and collections dominate
allm=allm[W::N]
def sh(cmd,cwd,t,e=env):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,''
end=time.time()+MIN*60
st=[0,0,0,0]
for (f,i,m) in allm:
    if time.time()>end: break
    st[0]+=1
    p=R+'/'+f; ls=open('/repo/'+f).readlines(); old=ls[i]; ls[i]=m
    open(p,'w').writelines(ls)
    try:
        rc,o=sh(['cargo','build','--offline'],R,300)
        if rc: continue
        st[1]+=1
        rc,o=sh(['cargo','test','--workspace','--no-fail-fast','--offline','--','--test-threads','4'],R,120)
        open(B+'/log','w').write(o)
        sh(['python3','/opt/vp/results.py',B+'/o.json','cargo:'+B+'/log'],R,30)
        try: ps=set(json.load(open(B+'/o.json'))['passed'])
        except Exception: continue
        if rc==124 or stable-ps: continue
        st[2]+=1
        e=dict(env,VERIF_SEED='1',VERIF_TIER='quick')
        caught=None; odd=[]
        for q in FILES[f].split():
            rc,o=sh(['./check',q],V,600,e)
            if rc==1 and 'VIOLATION' in o: caught=q; break
            if rc!=0: odd.append((q,rc,o[-300:]))
        if caught: st[3]+=1
        with open('/tmp/mu/results.jsonl','a') as fh:
            fh.write(json.dumps(dict(file=f,line=i+1,old=old.rstrip(),new=m.rstrip(),caught=caught,odd=odd))+'\n')
    finally:
        shutil.copy('/repo/'+f,p)
    print(W,st,flush=True)
