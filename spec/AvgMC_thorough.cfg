CONSTANTS MaxRows = 4
 MaxT = 4
 MaxH = 2
 MaxTb = 5
SPECIFICATION Spec
INVARIANTS Partition SpanLimit Maximal Confluent Ordered EmitCase
CHECK_DEADLOCK FALSE
