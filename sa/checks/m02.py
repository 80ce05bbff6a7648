"""M02: release exactly once"""
from pools import *
RULE = ("Every public member of the three memory resources is interpreted from every state, on every path, including those on which obtaining or recording a block fails. A new block must end up recorded exactly once with the alignment it was obtained with, or given back exactly once with that alignment. Wherever the record of the blocks goes away (destructor, release, assignment, clear), a loop must have given back each recorded block once, with its recorded alignment; after that neither the record nor a free list may refer to those blocks. "
        "The record is only ever moved, leaving the source empty; what a resource refers to is its own, and free pieces inside the source's inline storage are left behind on a move.")
TECH = "abstract interpretation of the compiled members over linear inequalities, addresses and an ownership event log, with inferred class invariants"
MIN_OB = 20
ASSUME = ["the members of std::vector and std::multimap do what the C++ standard says", "operator new gives memory of the size and alignment asked for, apart from all other memory, or raises an error", "requests to a homogeneous resource have one size, not above its initial width, and one alignment, as its documentation demands", "addresses and sizes stay below 2^62"]
def run(rep, tier): poolcheck("M02", rep)
