# Deciding technique and notes where they differ from the default in manifest.py.
TECH["C06"] = "stateless model checking of the real crate: exhaustive enumeration of bounded inputs (all byte strings, all documents of a few words, all single edits), guard pages as monitor"
TECH["C09"] = "stateless model checking of the real crate: all call sequences up to a depth, against a protocol automaton"
TECH["C13"] = "stateless model checking of the real crate: all histories up to a depth, with the address of every allocation as a choice"
TECH["C14"] = "schedule exploration of real threads running the real crate: all interleavings at lock operations within a preemption bound, and every single-instruction interruption of operation pairs, checked for linearizability"
TECH["C15"] = "stateless model checking of the real crate: all handle histories up to a depth, freed memory poisoned"
TECH["C16"] = "stateless model checking of the real crate: all operation sequences up to a depth, against a map"
TECH["C17"] = "stateless model checking of the real crate: all operation sequences up to a depth, against a vector"
TECH["C25"] = "stateless model checking of the real crate: all handle histories up to a depth and the executions of other checks, live allocations as monitor"
TECH["C26"] = "stateless model checking of the real crate: all interleavings of two encoders' calls and every way to write bounded documents, byte equality as oracle"
NOTE["C03"] = "The largest-distance scenario needs about 4.2 GB of memory in one worker."
NOTE["C14"] = "Sequential consistency on x86; one interruption per pair at instruction level."
NOTE["C24"] = "The invocations are a generated program; the enumeration is of programs."
TECH["C28"] = "stateless model checking of the real crate: all histories of making, cloning, converting and dropping handles up to a depth, all pairs and triples compared after each"
