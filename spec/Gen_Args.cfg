SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limits = {"above", "equal"}
  Skips = {"unset"}
  Exps = {"unset", "before", "after"}
