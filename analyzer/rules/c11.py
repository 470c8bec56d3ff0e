"""C11: trace and partial trace."""
from rules import opsrun


def check(ctx):
    ctx.rule('The value of every returned edge, as a polynomial over the successors of the operand, equals the sum of the diagonal blocks where the level is marked and the node of the traced successors, lowered by the number of marked levels below, where it is not.')
    ctx.assume = ['node construction (C30)', 'sums (C16)', 'number arithmetic (C25, C14)', 'the list of marks has as many elements as the diagram has levels']
    opsrun.run(ctx, {'trace'}, {'sem'})
