"""C30: building a node keeps the value of its successors and yields the normal form."""
from rules import opsrun
import nodes


def check(ctx):
    ctx.rule('Value numbering over every path of node construction with normalisation inlined: top weight times stored successor weight equals the successor handed over; normal form; level and flags; the node taken from the pool is stored or given back once.')
    ctx.assume = ['zero edges handed over are zero terminals', 'unique tables (C13), number table (C14), pools (C24) and number arithmetic (C25) work']
    opsrun.file_events(ctx, opsrun.parallel(ctx, nodes.jobs(ctx)), {'form', 'pool'})
