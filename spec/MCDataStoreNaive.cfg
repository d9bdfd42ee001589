\* The design the package had before its fix: expected to violate Safe (see DESIGN.md).
CONSTANTS Files = {f1, f2}
 Chunks = 1
 MaxFaults = 1
 MarkerLast = FALSE
SPECIFICATION Spec
INVARIANTS Safe
CHECK_DEADLOCK FALSE
