"""M03: reset"""
from pools import *
RULE = ("The reset member of the three memory resources is interpreted from every state, on every path, loops by induction. Afterwards the position in the inline storage is at its start, nothing that was on the free list before is on it, and every recorded block was either given back and forgotten, or its bytes put on the free list again (at least one piece for each block, all within it), or the cursor is back at the first block.")
TECH = "abstract interpretation of the compiled members over linear inequalities, addresses and an ownership event log, with inferred class invariants"
MIN_OB = 8
ASSUME = ["the members of std::vector and std::multimap do what the C++ standard says", "operator new gives memory of the size and alignment asked for, apart from all other memory, or raises an error", "requests to a homogeneous resource have one size, not above its initial width, and one alignment, as its documentation demands", "addresses and sizes stay below 2^62"]
def run(rep, tier): poolcheck("M03", rep)
