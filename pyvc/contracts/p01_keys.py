"""Footprint._resolve_keys (P01): the queue of the attributes."""
from contracts._model import *     # noqa
import core
from contracts._model import V, NONE, BOOL, INT
from contracts.p02_firstguess import F
from contracts.p01_resolve import keys_facts, cells


class QCtx(Ctx):
    fp = None

    def glob(self, ip, name, module):
        if name == 'setup':
            return T(REG.o('setup'), OpqCls('setup', attrs={'fastkeys': lambda ip, o: T(REG.o('setup.fastkeys'))}))
        return None


@contract('Footprint._resolve_keys', 'P01 P02 P03', F + '_resolve_keys', ctx=QCtx, budget=60)
def resolve_keys(ip):
    """Every attribute is queued once, whatever was done with the queues of the previous calls."""
    E = ip.E
    c = ip.ctx
    fp = c.fp = FP(ip)
    for n in ('first call', 'second call, the first queues being used up'):
        r = run_target(ip, F + '_resolve_keys', [fp.obj])
        a, b, s = ip.unpack(r, 3, False)
        for m, f in zip(('attributes', 'attributes', 'names', 'once', 'flags', 'flags', 'set'), keys_facts(fp, E.tree(a), E.tree(b), E.tree(s))):
            E.oblige('%s: %s' % (n, m), f)
        for q in (a, b, s):
            E.put(q, core.fresh_tree(E.nt(q), E.fresh_name('used')))
