import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import libgen, why
t=libgen.text(); os.makedirs('/tmp/w/l',exist_ok=True); open('/tmp/w/l/stl.mlw','w').write(t)
gs=why.vcs('/tmp/w/l/stl.mlw','/tmp/w/l/o','/tmp/w/l',transf=('split_vc', 'split_vc'), theory=sys.argv[1:] or None)
L=t.split('\n')
un=why.prove(gs, plan=[('same',2),('z3', 2), ('cvc5', 5), ('z3-new', 5), ('cvc5', 15), ('z3-nmbqi', 5)])
for x in un: print(x.line,x.fn,x.expl,'|',L[x.line-1][:160],x.tries[-1], x.smt['cvc5'].split('/')[-1])
print(len(gs),len(un))
