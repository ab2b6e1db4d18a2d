SPECIFICATION Spec
CONSTANT MaxOps = 14
