SPECIFICATION Spec
CONSTANT MaxOps = 9
