SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Vals = {0, 1, 2}
INVARIANTS Exact NoNeighbours HalfBin Vertex
CHECK_DEADLOCK FALSE
