"""M01: where handed-out blocks lie"""
from pools import *
RULE = ("Every public member of the three memory resources is interpreted from every state its inferred invariants allow (position in the inline storage, active block, record of blocks and free pieces all symbolic), on every path, loops by induction. A block that is handed out must lie within inline storage beyond the position in use, which must move past it; within the active block beyond the position in use, likewise; within a piece taken off the free list; or within a new block. "
        "Its address must be a multiple of the alignment asked for. Pieces put on the free list must lie within what was taken or given back, be disjoint from the block handed out and from each other, over all rounds of a loop, and be listed under the size they have. A block is recorded with no more than the size it has; a null pointer is returned only for an empty request.")
TECH = "abstract interpretation of the compiled members over linear inequalities, addresses and an ownership event log, with inferred class invariants"
MIN_OB = 30
ASSUME = ["the members of std::vector and std::multimap do what the C++ standard says", "operator new gives memory of the size and alignment asked for, apart from all other memory, or raises an error", "requests to a homogeneous resource have one size, not above its initial width, and one alignment, as its documentation demands", "addresses and sizes stay below 2^62"]
def run(rep, tier): poolcheck("M01", rep)
