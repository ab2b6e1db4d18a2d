SPECIFICATION Spec
INVARIANT OwnAbsorbers
CONSTANTS
  Targets = {1, 2, 3}
  N = 5
  Sort = TRUE
