SPECIFICATION Spec
CONSTANTS Arms = {"B", "R"}
          N = 4
          SliceOnce = TRUE
          Replace = FALSE
INVARIANT Aligned
