"""C09: Kronecker products."""
from rules import opsrun


def check(ctx):
    ctx.rule('The value of every returned edge, as a polynomial over the successors of the first operand with the second operand below them, equals the Kronecker product; the levels follow; identities above an operand are counted by induction over the loop.')
    ctx.assume = ['node construction (C30)', 'memo tables (C06, C07) and number arithmetic (C25, C14)', 'a matrix flagged as identity is the identity of its levels (C27)']
    opsrun.run(ctx, {'kron'}, {'sem'})
