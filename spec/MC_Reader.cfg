SPECIFICATION Spec
CONSTANTS Targets = {1, 2, 3}
          MaxRows = 4
          MaxCat = 3
          Reindex = TRUE
INVARIANTS OwnData AllOnce
