SPECIFICATION Spec
CONSTANTS
 Mx = 6
