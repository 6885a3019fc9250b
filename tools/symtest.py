"""the symbolic text model (vlib/symstr.py) against str and re, on all values of small symbolic strings"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import symstr, engine, core, symdom
symstr.ACTIVE[0]=True
import re
eng=engine.Engine(timeout_ms=20000); core.set_domain(symdom.SymD()); core.set_backend(eng)
DOM=frozenset(map(ord,'aB0 "\n\u00b2.'))
C=symstr.call
ops={
 'strip':lambda s:C(s.strip),'title':lambda s:C(s.title),'rsplit':lambda s:C(s.rsplit,None,1),'rsplit2':lambda s:C(s.rsplit,' ',1),
 'split':lambda s:C(s.split),'split1':lambda s:C(s.split,' '),'lines':lambda s:C(s.splitlines,True),'repl':lambda s:C(s.replace,'a','bb'),
 'repl0':lambda s:C(s.replace,'','b'),'zfill':lambda s:C(s.zfill,9),'dec':lambda s:C(s.isdecimal),'dig':lambda s:C(s.isdigit),'num':lambda s:C(s.isnumeric),
 'cas':lambda s:C(s.casefold),'exp':lambda s:C(s.expandtabs),'enc':lambda s:C(s.encode,'utf-16'),'part':lambda s:C(s.partition,'a'),'rpart':lambda s:C(s.rpartition,'a'),
 'up':lambda s:C(s.upper),'swap':lambda s:C(s.swapcase),'subn':lambda s:C(re.subn,r'(a)|(\s)',r'[\1]',s),'sub':lambda s:C(re.sub,r'(a)|(\s)','x',s,1),
 'rx':lambda s:C(re.search,r'\b(\w)(?P<n>.)',s) and C(re.search,r'\b(\w)(?P<n>.)',s).span(2),
 'li':lambda s:(lambda m:m and (m.lastindex,m.lastgroup,m.group()))(C(re.search,r'(a)|((?P<q>B)\s?)',s)),
 'lb':lambda s:[C(re.findall,r'(?<=a)\S|(?<!a|BB).$',s)] if 0 else C(re.findall,r'(?<=a)\S',s),
 'atom':lambda s:C(re.findall,r'(?>a+)a?|(?i:b)',s),'esc':lambda s:C(re.escape,s),'tr':lambda s:C(s.translate,{97:'zz'}),
 'pat':lambda s:C(re.findall,C(re.escape,s),"aB aB"),'map':lambda s:list(map(symstr.strattr(str,'strip'),C(s.split,'a'))),
 'slow':lambda s:C(s.islower),'count':lambda s:C(s.count,'aa'),'fi':lambda s:[m.span() for m in C(re.finditer,r'a*',s)],'rspl':lambda s:C(re.split,r'(a)|\s',s),
 'und':lambda s:C(re.findall,r'^.+?$',s,re.M) if 0 else [m.group() for m in C(re.finditer,re.compile(r'^.*?$',re.M),s)],
 'cmp':lambda s:(s<'aa B',s>='a',s in('aa','a  a'),'a' in s),
}
bad=0
def plainv(x):
    if isinstance(x,str): return symstr.concrete(x)
    if isinstance(x,(list,tuple)): return type(x)(plainv(y) for y in x)
    return x
for n,f in ops.items():
    cnt=[0]
    def body():
        global bad
        a=symstr.new_char(eng,'x',DOM); b=symstr.new_char(eng,'y',DOM)
        s=symstr.lift('a'+a+b+'a')
        try: r=f(s)
        except symstr.Unsupported as e: print('UNSUP',n,e); return
        cnt[0]+=1
        p=symstr.concrete(s)
        symstr.ACTIVE[0]=False
        try: want=f(p)
        finally: symstr.ACTIVE[0]=True
        got=plainv(r)
        if got!=want: bad+=1; print('BAD',n,repr(p),got,want)
    try: eng.explore(body)
    except Exception as e:
        import traceback; traceback.print_exc()
    assert cnt[0] == 64, n
print('bad',bad)
sys.exit(bad > 0)
