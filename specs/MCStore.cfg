SPECIFICATION Spec
CONSTANTS Slots = {s1, s2, s3}
          Lens = {1, 2}
          MaxBlocks = 4
SYMMETRY Sym
INVARIANTS Values Counts Dangling Leak Bounded
PROPERTY WriteMoves
CHECK_DEADLOCK FALSE
