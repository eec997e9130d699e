CONSTANTS Widths = {1, 3, 5, 7}
 Overs = {1, 2, 3, 4, 5, 7}
 Q = 24
 Npix = 6
 NAng = 6
SPECIFICATION Spec
INVARIANTS InKernel Centred Moves Packing Orthonormal Emit
CHECK_DEADLOCK FALSE
