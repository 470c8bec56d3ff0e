"""C08: every scratch number an operation takes is given back once, or is the weight of its result."""
from rules import opsrun


def check(ctx):
    ctx.rule('Typestate of scratch numbers over every path of the operations and of the construction of nodes: taken -> given back once, or handed over with the result; '
             'no use of a number, and no use of a node that a collection may have reclaimed, after it.')
    ctx.assume = ['operands are on the same qubits; zero edges are terminals', 'the pools of scratch numbers work (C24)']
    opsrun.run(ctx, opsrun.ALL, {'scr', 'life'}, node_kinds=('v', 'm', 'd'))
