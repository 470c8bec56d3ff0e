"""C10: operations leave everything that is published unchanged and publish stored numbers only."""
from rules import opsrun


def check(ctx):
    ctx.rule('Effect analysis over every path of the operations and of the construction of nodes: each store goes to a scratch number the operation owns, to a local, or to a node that is not yet published; '
             'results, memo entries and published nodes hold stored numbers.')
    ctx.assume = ['operands are on the same qubits; zero edges are terminals']
    opsrun.run(ctx, opsrun.ALL, {'tab', 'life'}, node_kinds=('v', 'm', 'd'))
