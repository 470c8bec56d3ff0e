"""C07: the recursive operations record in, and take from, their memo tables exactly what belongs to the operands."""
from common import *
from rules import opsrun


def check(ctx):
    ctx.rule('At every insert into a memo table the recorded edge has to denote the operation applied to the recorded operands (weights included); '
             'a lookup may only be assumed to answer the operation applied to the operands asked for; '
             'no two operations use the same table.')
    ctx.assume = ['the memo tables answer only for what was stored (C06)', 'operands are on the same qubits; zero edges are terminals']
    res = opsrun.run(ctx, opsrun.ALL, {'memo', 'sem'})
    used = {}
    n = 0
    for r, (events, tables) in res:
        for t in tables:
            used.setdefault(t, set()).add(opsrun.operation(r))
            n += 1
    ctx.require('memo tables used by operations', n, len(opsrun.MEMO_UNITS))
    for t, ops in sorted(used.items()):
        ctx.ob('memo table %s serves one operation' % t, len(ops) == 1, 'used by ' + ', '.join(sorted(ops)))
