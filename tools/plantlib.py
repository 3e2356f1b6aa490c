import subprocess, os, json, shutil, sys
S='/tmp/sc/repo'
if not os.path.isdir(S):
    os.makedirs('/tmp/sc',exist_ok=True); subprocess.check_call(['cp','-a','/repo',S])
PRE='''#![allow(unused_imports, unused_variables, dead_code, unused_mut)]
#[macro_use] extern crate adapton;
use std::rc::Rc;
use std::cell::{Cell, RefCell};
use adapton::macros::*;
use adapton::engine::*;
'''
def git(*a): return subprocess.check_output(['git','-C',S]+list(a)).decode()
def bug(id, prop, edits, needs, breaks, demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    git('checkout','-q','--','.')
    for (f,old,new) in edits:
        p=S+'/'+f; t=open(p).read()
        c=t.count(old)
        assert c==1,(id,f,c)
        open(p,'w').write(t.replace(old,new))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(git('diff'))
    git('checkout','-q','--','.')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.rs','w').write(PRE+demo)
    shutil.copy('/verif/tools/demo.sh',d+'/demo.sh')
    print('made',id)
