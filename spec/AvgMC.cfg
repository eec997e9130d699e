CONSTANTS MaxRows = 3
 MaxT = 4
 MaxH = 2
 MaxTb = 6
SPECIFICATION Spec
INVARIANTS Partition SpanLimit Maximal Confluent Ordered EmitCase
CHECK_DEADLOCK FALSE
