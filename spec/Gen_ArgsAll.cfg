SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limits = {"above", "equal", "below", "nan"}
  Skips = {"unset", "in", "zero", "one", "low", "high", "nan", "text"}
  Exps = {"unset", "disable", "before", "after"}
