SPECIFICATION Spec
CONSTANTS Arms = {"B", "R"}
          N = 4
          SliceOnce = FALSE
          Replace = TRUE
INVARIANT Aligned
