import sys, random, re
sys.path.insert(0,'/verif')
from pyvc import engine, symre, strs, strre, sym
from pyvc.strs import *
import z3
PATS = [r'^\s*-?(\d+\.?\d*|\.\d+)', r'^\s*-?\d+', r'^\s*\d+', r'^\s*\d+(\.\d)?', r'^.+$', (r'^.*?(?P<letter>[ABCGXYZ])', re.I), r'\s*;\s*(?P<text>.*?)\s*$', r'\((?P<text>[^\)]*)\)',
  r'^(?P<block_and_comment>(\([^\)\n]*\)|(?!\([^\)\n]*\))[^%\n])*?)(?P<macro>%.*%?)?\s*$', r'\S', r'[GM][0-9][0-9]+(\.[1-9])?']
SUBS=[(r'(^\s+|\s+$)',''),(r'\s+',' '),(r'\s','')]
POOLS=['0123456789',' ',' \t','abc','ABCXYZ','xq','.','-','(',')',';','%','#@!','0','G','n']
class Res: pass
def gen(rng):
    out=[]
    for _ in range(rng.randint(1,5)):
        k=rng.random()
        if k<0.35: out.append(('ch',rng.choice('G1. -(;)%aX0q')))
        elif k<0.55: out.append(('cl',rng.choice(POOLS)+rng.choice(POOLS)))
        elif k<0.9: out.append(('rn',rng.choice(POOLS)+ (rng.choice(POOLS) if rng.random()<0.25 else '')))
        elif rng.random()<0.2: out.append(('fx',rng.choice([2,3])))
    return out
stats={'ok':0,'uns':0,'bad':0,'paths':0}
def one(shape, pat, how, rng):
    def fn(c):
        cells=[]
        for i,(k,v) in enumerate(shape):
            if k=='ch': cells.append(Ch(v))
            elif k=='cl': cells.append(Cl(v))
            elif k=='rn':
                n=c.fresh('n',True); c.add(n.t>=1); c.add(n.t<=5)
                cells.append(Rn(frozenset(v),n))
            else:
                n=c.int('i%d'%i,-99999,99999); cells.append(Fx(n,v,2))
        t=SText(cells)
        if how[0]=='sub':
            r=symre.compile(pat[0]).sub(pat[1],t)
        else:
            p=symre.compile(*(pat if isinstance(pat,tuple) else (pat,)))
            r=getattr(p,how[0])(t)
        if how[0]!='sub' and r is not None: r.groups(); r.span(); t[r.end():]
        stats['paths']+=1
        assert c.solver.check()==z3.sat
        m=c.solver.model()
        def con(x):
            return x if isinstance(x,str) or x is None else x.concrete(m)
        s=con(t)
        if how[0]=='sub':
            e=re.compile(pat[0]).sub(pat[1],s); g=con(r)
        else:
            q=re.compile(*(pat if isinstance(pat,tuple) else (pat,)))
            rm=getattr(q,how[0])(s)
            e=None if rm is None else tuple([rm.group()]+list(rm.groups()))
            g=None if r is None else tuple(con(x) for x in [r.group()]+list(r.groups()))
            if r is not None and e is not None:
                def ev(x): 
                    if not isinstance(x,sym.Num): return x
                    return int(str(m.eval(sym.term(x),model_completion=True)).split('/')[0]) if x.q is None else int(x.q)
                if ev(r.start())!=rm.start() or ev(r.end())!=rm.end():
                    # digit runs: printed length may differ from the model
                    if not any(k=='fx' for k,_ in shape): print('SPAN',shape,pat,s,(ev(r.start()),ev(r.end())),rm.span()); stats['bad']+=1
                # boundary
                if not isinstance(t[r.end():],str) or True:
                    rest=con(t[r.end():])
                    if rest!=s[rm.end():]: print('REST',shape,pat,repr(s),repr(rest)); stats['bad']+=1
        if e!=g: print('DIFF',shape,pat,how,repr(s),e,g); stats['bad']+=1
        else: stats['ok']+=1
    return fn
def main(seed,N):
    rng=random.Random(seed)
    for k in range(N):
        shape=gen(rng)
        if rng.random()<0.2: pat=rng.choice(SUBS); how=('sub',)
        else: pat=rng.choice(PATS); how=(rng.choice(['search','match','fullmatch']),)
        fn=one(shape,pat,how,rng)
        todo=[()]
        n=0
        while todo and n<60:
            n+=1
            pre=todo.pop()
            st=engine.Stats()
            c=engine.PathCtx(None,list(pre),st)
            sym.set_ctx(c)
            try:
                fn(c)
            except sym.PathEnd: pass
            except sym.Unsupported as e: 
                stats['uns']+=1; U[str(e)[:60]]=U.get(str(e)[:60],0)+1
            except Exception as e:
                import traceback; print('EXC',shape,pat,how); traceback.print_exc(limit=-4); stats['bad']+=1
            todo+=c.pending if hasattr(c,'pending') else []
        if stats['bad']>12: break
    print(stats,U)
U={}
if __name__=='__main__': main(int(sys.argv[1]),int(sys.argv[2]))
