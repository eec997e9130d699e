CONSTANTS Widths = {1, 3, 5}
 Overs = {1, 2, 3, 4}
 Q = 8
 Npix = 6
 NAng = 4
SPECIFICATION Spec
INVARIANTS InKernel Centred Moves Packing Orthonormal Emit
CHECK_DEADLOCK FALSE
