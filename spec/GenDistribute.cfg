SPECIFICATION Spec
CONSTANTS G = 5
          S = 3
          P = 4
