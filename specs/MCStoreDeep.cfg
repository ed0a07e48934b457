SPECIFICATION Spec
CONSTANTS Slots = {s1, s2, s3, s4}
          Lens = {2}
          MaxBlocks = 5
SYMMETRY Sym
INVARIANTS Values Counts Dangling Leak Bounded
PROPERTY WriteMoves
CHECK_DEADLOCK FALSE
