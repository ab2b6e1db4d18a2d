SPECIFICATION Spec
CONSTANTS Arms = {"B", "R"}
          N = 4
          SliceOnce = TRUE
          Replace = TRUE
INVARIANT Aligned
