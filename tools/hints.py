#!/usr/bin/env python3
"""Record the names of the loop facts found for the optimizer loop, tried first by later runs (each run re-proves them)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
os.environ['VF_NOHINTS'] = '1'
from concurrent.futures import ThreadPoolExecutor
from vf import run, optunit, smt
u = optunit.OptUnit(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C26'])
ctx = run.Ctx('C01', 'quick', 1)
try:
    ctx.prebuild([u])
    res = run.UnitResult('x')
    u.prove(ctx, res)
    bad = [o.name for o in res.obs if o.status != 'proved']
    if bad: sys.exit('not proved: %s' % bad)
    ex, act = u.last
    loops = ex.cutloops
    hv = {L.hyp.id: k for k, L in loops.items()}

    def core(pc, goal):
        """facts needed to prove goal"""
        p = smt.BVPrinter()
        txt, named = [], {}
        for c in pc:
            if c.id in hv:
                k = hv[c.id]
                for j in act[k]:
                    n = 'n!%d' % len(named)
                    named[n] = (k, j)
                    txt.append('(assert (! %s :named %s))' % (p.term(loops[k].terms[j]), n))
            else: txt.append('(assert %s)' % p.term(c))
        txt.append('(assert (not %s))' % p.term(goal))
        full = '\n'.join(['(set-option :produce-unsat-cores true)', '(set-option :smt.core.minimize true)'] + p.decl + ['(assert %s)' % e for e in p.extra] + txt + ['(check-sat)', '(get-unsat-core)', ''])
        s, out = smt.run_solver('z3', full, 60)
        if s != 'unsat': return None
        return [named[w] for w in out.replace('(', ' ').replace(')', ' ').split() if w in named]
    need, todo = set(), []
    with ThreadPoolExecutor(8) as tp:
        def add(cs):
            for c in cs:
                if c is None: sys.exit('core failed')
                for x in c:
                    if x not in need: need.add(x); todo.append(x)
        add(tp.map(lambda j: core(j[1], j[2]), u.jobs))
        while todo:
            batch, todo = todo, []
            add(tp.map(lambda a: core(*a), [(pc, loops[k].cands[j][1](st)) for k, j in batch for pc, st in loops[k].init + loops[k].pres]))
            print(len(need), len(todo), flush=True)
    names = sorted({loops[k].cands[j][0] for k, j in need})
    json.dump(names, open(optunit.HINTS, 'w'), indent=0)
    print(len(names), 'facts')
finally: ctx.close()
