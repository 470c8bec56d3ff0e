"""C17: transposition, adjoint, inner product, fidelity, expectation value."""
from rules import opsrun


def check(ctx):
    ctx.rule('The value of every returned edge or number, as a polynomial over the successors of the operands, equals the definition; recursive calls, memo hits and node construction are replaced by their contracts.')
    ctx.assume = ['operands are on the same qubits; zero edges are terminals', 'node construction keeps the value (C30)', 'memo tables (C06, C07) and number arithmetic (C25, C14)',
                  'a matrix flagged symmetric is its own transpose']
    opsrun.run(ctx, {'linear'}, {'sem'})
