#!/usr/bin/env python3
"""Development tool (no registered command uses it): a mutation sweep over /repo's non-test code.
   mutate.py list | run OUT [SLOTS [SURVIVORS-OF]] | survivors OUT...
Every mutant is built in a scratch copy and checked until the first check reports it."""
import re,sys,os,subprocess,json,shutil,threading,time,queue
R='/repo'
FILES={
 'pw_diff_lib/src/apply_text.rs':'T05 T01 T03 T04 T06 T07 T02 U06 T08 F03',
 'pw_diff_lib/src/apply_bytes.rs':'B01 B02 B03 T08 F03 P01',
 'pw_diff_lib/src/byte_diff.rs':'B01 B02 B03 D05 F01 F02 F03 D04',
 'pw_diff_lib/src/text_diff.rs':'T01 T05 D05 T06 F01 F02 F03 U02 D04',
 'pw_diff_lib/src/changes.rs':'D01 D02 D04 D05 D03 D06 S03',
 'pw_diff_lib/src/common_subsequence.rs':'D02 D01 D04 S03',
 'pw_diff_lib/src/diff.rs':'F02 P04 F01 F03 P01 P05',
 'pw_diff_lib/src/range.rs':'D01 T01 T05 S03',
 'pw_diff_lib/src/sequence.rs':'S01 S02 S03 T01 B01 F03',
 'pw_diff_lib/src/snippet.rs':'S03 D05 F03 T01 F01 T04',
 'pw_diff/src/main.rs':'P04 P01 P05 D04',
 'pw_patch/src/main.rs':'P01 P02 P05 P07 P03 P06',
 'pw_cub_diff_lib/src/text_diff.rs':'U02 U01 U06 U05',
 'pw_cub_diff_lib/src/unified_diff.rs':'U01 U02 U03 U04 U05 U06',
}
ALL=[l.split()[0] for l in subprocess.run(['/verif/target/release/pbt','list'],capture_output=True,text=True).stdout.splitlines()]
SUB=[(r'<=','<'),(r'>=','>'),(r'(?<=\s)<(?=\s)','<='),(r'(?<=\s)>(?=\s)','>='),(r'==','!='),(r'!=','=='),
 (r'(?<=\s)<=(?=\s)','>'),(r'(?<=\s)<(?=\s)','>='),
 (r'(?<=\s)\+(?=\s)','-'),(r'(?<=\s)-(?=\s)','+'),(r' \+ 1\b',''),(r' - 1\b',''),(r'\+= ','-= '),(r'-= ','+= '),(r'\+= ','= '),
 (r'&&','||'),(r'\|\|(?= )','&&'),(r'!(?=[a-z(])(?<![a-z_]!)',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'(?<![\w.\'])0(?![\w.x])','1'),(r'(?<![\w.\'])1(?![\w.x])','0'),(r'(?<![\w.\'])1(?![\w.x])','2'),(r'(?<![\w.\'])2(?![\w.x])','3'),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'\bmin\(','max('),(r'\bmax\(','min('),
 (r'\.rev\(\)',''),(r'\.start\(\)','.end()'),(r'\.end\(\)','.start()'),(r'\.0\b','.1'),(r'\.1\b','.0'),
 (r'\bbefore(?=[_.(])','after'),(r'\bafter(?=[_.(])','before'),(r'\breverse\b(?=[,)])','!reverse'),
 (r'\bbreak;','continue;'),(r'\bcontinue;','break;'),(r'\.\.=','..'),(r'(?<=\S)\.\.(?=[a-z])','..='),
 (r'\bis_some\(\)','is_none()'),(r'\bis_none\(\)','is_some()'),(r'\bis_empty\(\)','len() == 1'),
 (r'\bOk\(\(\)\)','{return Ok(());}'),(r'\.skip\((\w+)\)',''),(r'\.last\(\)','.first()'),(r'\.first\(\)','.last()'),
 (r'\bsaturating_sub\b','wrapping_sub'),(r'starts_with','ends_with'),(r'ends_with','starts_with'),
 (r'trim_end\b','trim'),(r'trim_start\b','trim'),(r'\bu64\b','u8'),(r'\bu32\b','u8'),(r'as u8\b','as u8 / 2'),
 (r"'\\n'","'\\r'"),(r'\\n','\\r'),(r'\bwrite_all\b','write'),(r'read_to_end','read'),(r'create_new\(true\)','create(true)'),
 (r'truncate\(true\)','truncate(false)'),(r'sync_all\(\)','flush()'),(r'\?;',';'),(r'\)\?','.unwrap()'.replace('.',').')),
 (r'if (?!let)([^{]+) \{$','if true {'),(r'if (?!let)([^{]+) \{$','if false {'),(r'while (?!let)([^{]+) \{$','while false {'),
 (r'\bSome\(([^()]*)\)$','None'),(r'\.clone\(\)',''),(r"'([ -@+\\\\])'","'~'"),(r'"([^"]+)"','"~"'),
 (r'context_lengths\(\)\.0','context_lengths().1'),(r'isize\b','i8'),(r'\busize\b(?=[;,)])','u8'),
]
def code_lines(f):
    L=open(f'{R}/{f}').read().split('\n'); out=[]
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        s=l.strip()
        if not s or s.startswith(('//','use ','#[','#!','mod ','pub mod','}')) and '=>' not in s and 'else' not in s: continue
        if re.match(r'log::|println!|eprintln!\("debug',s): continue
        out.append((i,l))
    return L,out
def mutants():
    M=[]; seen=set()
    for f in FILES:
        L,cl=code_lines(f)
        for i,l in cl:
            c=l.split('//')[0]
            for a,b in SUB:
                for m in re.finditer(a,c):
                    n=c[:m.start()]+m.expand(b.replace('\\n','\\\\n').replace('\\r','\\\\r') if '\\' in b else b)+c[m.end():]
                    if n!=c and (f,i,n) not in seen: seen.add((f,i,n)); M.append((f,i,n))
            if c.strip().endswith(';') and not re.match(r'\s*(let|return|use|type|fn|static|const)\b',c):
                n=re.match(r'\s*',c)[0]+'/* nothing */'
                if c.count('(')==c.count(')') and not re.match(r'\s*[)\]}]',c) : M.append((f,i,n))
    return M
def worker(slot,q,out,lock,cpus):
    W=f'/tmp/mut-s{slot}'; os.makedirs(W+'/verif',exist_ok=True)
    if not os.path.isdir(W+'/repo'): subprocess.check_call(['cp','-a',R,W+'/repo'])
    subprocess.run('git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD',shell=True,cwd=W+'/repo')
    shutil.rmtree(W+'/harness',ignore_errors=True); os.makedirs(W+'/harness')
    for x in ('src','Cargo.toml','Cargo.lock'): subprocess.check_call(['cp','-r','/verif/harness/'+x,W+'/harness/'])
    t=open(W+'/harness/Cargo.toml').read().replace('/repo/',W+'/repo/'); open(W+'/harness/Cargo.toml','w').write(t)
    if not os.path.exists(W+'/shim.so'): subprocess.check_call(['cc','-O1','-fno-delete-null-pointer-checks','-w','-shared','-fPIC','-o',W+'/shim.so','/verif/shim/shim.c','-ldl'])
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_PROFILE_RELEASE_OPT_LEVEL='1',CARGO_PROFILE_RELEASE_INCREMENTAL='true',CARGO_PROFILE_RELEASE_DEBUG='0',
      PBT_VERIF_DIR=W+'/verif',PBT_BIN_DIR=W+'/tr/debug',PBT_SHIM=W+'/shim.so',VERIF_SEED='1',PBT_SHRINK_S='0',PBT_QUICK_PERCENT=os.environ.get('PERCENT','20'))
    pre=['taskset','-c',cpus]
    while True:
        try: n,(f,i,new)=q.get_nowait()
        except queue.Empty: return
        p=f'{W}/repo/{f}'; orig=open(f'{R}/{f}').read(); L=orig.split('\n'); old=L[i]; L[i]=new
        open(p,'w').write('\n'.join(L))
        r=dict(n=n,file=f,line=i+1,old=old.strip(),new=new.strip()); t0=time.time()
        b=subprocess.run(pre+['cargo','build','--offline','-q','-p','pw_diff','-p','pw_patch'],cwd=W+'/repo',env=dict(env,CARGO_TARGET_DIR=W+'/tr'),capture_output=True)
        if b.returncode==0:
            b=subprocess.run(pre+['cargo','build','--offline','-q','--release'],cwd=W+'/harness',env=dict(env,CARGO_TARGET_DIR=W+'/t'),capture_output=True)
        if b.returncode: r['result']='nobuild'
        else:
            r['result']='SURVIVED'; first=FILES[f].split()
            for c in first+([x for x in ALL if x not in first] if os.environ.get('EVERY') else []):
                try: x=subprocess.run(pre+[W+'/t/release/pbt','run',c,'quick'],env=env,capture_output=True,text=True,timeout=600)
                except subprocess.TimeoutExpired: r['result']='timeout '+c; break
                if x.returncode:
                    r['result']=f'{c} rc{x.returncode}'; r['msg']=(x.stdout.strip().split('\n')[0] if x.returncode==1 else x.stderr)[:200]; break
        r['s']=round(time.time()-t0)
        open(p,'w').write(orig)
        with lock:
            out.write(json.dumps(r)+'\n'); out.flush()
def main():
    if sys.argv[1]=='list':
        M=mutants()
        for n,(f,i,x) in enumerate(M): print(n,f,i+1,x.strip())
        return
    if sys.argv[1]=='run':
        done=set()
        if os.path.exists(sys.argv[2]): done={json.loads(l)['n'] for l in open(sys.argv[2])}
        q=queue.Queue(); M=mutants()
        # only those that survived in another sweep
        again={json.loads(l)['n'] for l in open(sys.argv[4]) if 'SURVIVED' in l} if len(sys.argv)>4 else set(range(len(M)))
        for n,m in enumerate(M):
            if '~' in m[2] or 'exit(2)' in m[2] and len(sys.argv)>4: continue
            if n in again and n not in done and '{return Ok(());}' not in m[2]: q.put((n,m))
        out=open(sys.argv[2],'a'); lock=threading.Lock(); k=int(sys.argv[3]) if len(sys.argv)>3 else 4
        T=[threading.Thread(target=worker,args=(s,q,out,lock,f'{2*s},{2*s+1}')) for s in range(k)]
        [t.start() for t in T]; [t.join() for t in T]
main()
