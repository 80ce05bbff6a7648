"""M04: recycling"""
from pools import *
RULE = ("The allocating and deallocating members of the two recycling memory resources are interpreted from every state, on every path. A non-empty block that is given back must be put on the free list as a piece that covers it, together with all pieces taken off to be merged with it; an empty one changes nothing. A piece is handed out only when it is large enough and is taken off the list; what is left of it returns to the list, without overlap.")
TECH = "abstract interpretation of the compiled members over linear inequalities, addresses and an ownership event log, with inferred class invariants"
MIN_OB = 10
ASSUME = ["the members of std::vector and std::multimap do what the C++ standard says", "operator new gives memory of the size and alignment asked for, apart from all other memory, or raises an error", "requests to a homogeneous resource have one size, not above its initial width, and one alignment, as its documentation demands", "addresses and sizes stay below 2^62"]
def run(rep, tier): poolcheck("M04", rep, "recycles")
