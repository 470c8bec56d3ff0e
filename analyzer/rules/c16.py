"""C16: addition and multiplication."""
from rules import opsrun


def check(ctx):
    ctx.rule('The value of every returned edge, as a polynomial over the successors of the operands, equals the sum (product) of the operands; recursive calls, memo hits and node construction are replaced by their contracts.')
    ctx.assume = ['operands are on the same qubits; zero edges are terminals', 'node construction keeps the value (C30)', 'memo tables (C06, C07) and number arithmetic (C25, C14)']
    opsrun.run(ctx, {'arith'}, {'sem'})
