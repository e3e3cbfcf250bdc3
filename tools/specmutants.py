#!/usr/bin/env python3
"""Does MC.tla notice when MockeyCore.tla is wrong?  Makes changed copies of the specification and has TLC check each in
small scopes.  Usage: tools/specmutants.py [NUMBER ...].  Not a check: a test of the specification's own properties."""
import subprocess, os, shutil, sys, tempfile
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec") + "/"
inv="ChainsAreScopes HeldOnce OnePerContext OffIsZero Counters RemoveUndoesInstall RemovesCommute Idempotent BackToOrigin VRemovesCommute VUndo SeqValid SeqCyclic".split()
F={'scopes':'2 1 1 2 3 1','calls':'2 1 2 1 2 2','flight':'1 1 2 2 2 2','nest':'1 1 1 2 2 1','seq':'2 1 1 2 1 3','vars':'1 2 1 2 3 1','parts':'1 4 1 3 2 1'}
M=[("Append(@, m),\n                          !.mk","<<m>> \\o @,\n                          !.mk"),
("!.on = FALSE, !.n = 0, !.k = 0, !.fw = to]","!.on = FALSE, !.n = 0, !.fw = to]"),
("!.on = FALSE, !.n = 0, !.k = 0, !.fw = to]","!.on = FALSE, !.k = 0, !.fw = to]"),
("to == IF i = Len(c) THEN 0 ELSE c[i+1] IN","to == 0 IN"),
("THEN [@[k] EXCEPT !.fw = to] ELSE @[k]","THEN [@[k] EXCEPT !.fw = 0] ELSE @[k]"),
("IF i = Len(c) THEN [t EXCEPT !.val","IF TRUE THEN [t EXCEPT !.val"),
("ELSE [t EXCEPT !.vmk[c[i+1][2]].og = s.vmk[m].og,","ELSE [t EXCEPT "),
("RemoveAll(RemoveRef(s, Last(refs)), Front(refs))","RemoveAll(RemoveRef(s, Head(refs)), Tail(refs))"),
("IF q.i = Len(q.vs) THEN 1 ELSE q.i + 1","IF q.i = Len(q.vs) THEN q.i ELSE q.i + 1"),
("IF c1 < q.vs[q.i][2]","IF c1 <= q.vs[q.i][2]"),
("LAMBDA t, b : IF b = 1 THEN EvalH","LAMBDA t, b : IF b = 0 THEN EvalH"),
("ELSE RunMock(s, f, Last(s.chain[Code(f)])","ELSE RunMock(s, f, Head(s.chain[Code(f)])"),
("IF i = 1 THEN Orig(s, f, x, g, d) ELSE RunMock(s, f, c[i-1]","IF TRUE THEN Orig(s, f, x, g, d) ELSE RunMock(s, f, c[i-1]"),
("t1 == [s EXCEPT !.mk[m].k = @ + 1]","t1 == s"),
("t1 == [s EXCEPT !.mk[m].k = @ + 1]","t1 == [s EXCEPT !.mk[m].k = @ + 2]"),
("IF k = m THEN [@[k] EXCEPT !.n = @ + 1, !.lf = f]","IF k = m THEN [@[k] EXCEPT !.lf = f]"),
('s.mk[m].fl.t = "inc" -> s.mk[m].fl.g = s.gid[g]','s.mk[m].fl.t = "inc" -> s.mk[m].fl.g # s.gid[g]'),
("DoExit(s)  == Done([RemoveAll(s, Top(s)) EXCEPT","DoExit(s)  == Done([s EXCEPT"),
("DoUnPatchAll(s) == Done(RemoveAll(s, Top(s)))","DoUnPatchAll(s) == Done(RemoveAll(s, s.scopes[1]))"),
("DoUnPatchAll(s) == Done(RemoveAll(s, Top(s)))","DoUnPatchAll(s) == Done(s)"),
("ELSE Reconf(s, m, [s EXCEPT !.mk[m].cs[1].h = h])","ELSE Reconf(s, m, [s EXCEPT !.mk[m].cs[1] = [w |-> None, h |-> h]])"),
("ELSE Done(Install(Remove(t, m), m))","ELSE Done(t)"),
("ELSE Done(Install(Remove(t, m), m))","ELSE Done(Remove(t, m))"),
("IF Refused(s, m) # {} THEN ReMock(s, Refused(s, m)) ELSE Done(Install(","IF Refused(s, m) # {} THEN ReMock(t, Refused(s, m)) ELSE Done(Install("),
("e == IF RefusedBuild(s, f) # {} THEN ReMock(s, RefusedBuild(s, f))\n             ELSE Done(NewMock(s, f, b.cs, o, Real","e == IF FALSE THEN ReMock(s, RefusedBuild(s, f))\n             ELSE Done(NewMock(s, f, b.cs, o, Real"),
("IF ~s.mk[m].on /\\ Refused(s, m) # {} THEN ReMock(s, Refused(s, m)) ELSE Done(Install(s, m))","Done(Install(s, m))"),
('h.t = "org"  -> Log(Then(Origin(t1, f, m, x, g, d)','h.t = "org"  -> Log(Then(CallF(t1, f, x, g, d - 1)'),
("[Remove(s, m) EXCEPT !.mk[m].dead = TRUE]","[s EXCEPT !.mk[m].dead = TRUE]"),
("IF c > Len(s.mk[m].cs) THEN Below(s, f, m, x, g, d)","IF c > Len(s.mk[m].cs) THEN Orig(s, f, x, g, d)"),
("ELSE Below(s1, f, m, x, g, d)\n\nConds","ELSE Orig(s1, f, x, g, d)\n\nConds"),
("ELSE Conds(t, f, m, c + 1, x, g, d))","ELSE Conds(t, f, m, c + 1, x + 1, g, d))"),
("EXCEPT !.vmk[m].h = x, !.vmk[m].hs = TRUE], m))","EXCEPT !.vmk[m].hs = TRUE], m))"),
("LET t == VRemove(s, m) IN Done(VInstall(","LET t == s IN Done(VInstall("),
("DropRef([s EXCEPT !.chain[Code(s.mk[m].f)] = Without(@, m),","DropRef([s EXCEPT !.chain[Code(s.mk[m].f)] = Front(@),"),
("t == DropRef([s EXCEPT !.vmk[m].on = FALSE], <<\"v\", m>>)","t == [s EXCEPT !.vmk[m].on = FALSE]"),
("[] w.t = \"off\"  -> R(Remove(s, m), e, Ok(0))","[] w.t = \"off\"  -> R(Remove(s, m), e, Ok(1))"),
("Origin(Remove(t1, m), f, m, x, g, d), LAMBDA t, v : R(t, <<>>, Ok(v + 11))","CallF(Remove(t1, m), f, x, g, d - 1), LAMBDA t, v : R(t, <<>>, Ok(v + 11))"),
]
top=tempfile.mkdtemp(); env=top+'/spec'
def run(text,focus,args):
    shutil.rmtree(env,ignore_errors=True); shutil.copytree(SPEC,env)
    open(env+'/MockeyCore.tla','w').write(text)
    nf,nv,ng,mm,ms,mn=args.split()
    open(env+'/MCx.cfg','w').write('CONSTANTS NF=%s NV=%s NG=%s Sharing="none" Focus="%s" MaxMocks=%s MaxScopes=%s MaxN=%s\nINIT Init\nNEXT Next\nCONSTRAINT Constraint\nCHECK_DEADLOCK FALSE\n'%(nf,nv,ng,focus,mm,ms,mn)+''.join('INVARIANT %s\n'%i for i in inv))
    o=subprocess.run('timeout 300 tlc -workers 4 -metadir '+top+'/meta -config MCx.cfg MC.tla',shell=True,cwd=env,capture_output=True,text=True).stdout
    shutil.rmtree(top+'/meta',ignore_errors=True)
    if 'No error has been found' in o: return None
    for l in o.splitlines():
        if 'violated' in l or 'Assert' in l or 'failed' in l: return l[:120]
    return 'ERR '+o[-300:].replace('\n',' | ')
base=open(SPEC+'MockeyCore.tla').read()
sel=[int(a) for a in sys.argv[1:]] or range(len(M))
for i in sel:
    a,b=M[i]
    if a==b: continue
    if base.count(a)!=1: print(i,'COUNT',base.count(a),a[:60]); continue
    t=base.replace(a,b); res=''
    for f,args in F.items():
        k=run(t,f,args)
        if k: res='killed by %s: %s'%(f,k); break
    print(i,res or 'SURVIVED: %s => %s'%(a[:80],b[:80]),flush=True)
shutil.rmtree(top, ignore_errors=True)
