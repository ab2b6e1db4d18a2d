SPECIFICATION Spec
CONSTANTS Targets = {1, 2, 3}
          MaxRows = 3
          MaxCat = 3
          Reindex = FALSE
INVARIANTS OwnData AllOnce
