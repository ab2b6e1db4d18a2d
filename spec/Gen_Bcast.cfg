SPECIFICATION Spec
CONSTANT Sizes = {0, 1, 2, 3, 5}
