--------------------------- MODULE MC_StorageSteps ---------------------------
EXTENDS StorageSteps
A(k, v, i) == [k |-> k, v |-> v, i |-> i]
MCProgram(c) == CASE c = 1 -> <<A("a", 1, 1), A("b", 2, -1)>>
                  [] c = 2 -> <<A("a", 3, 0), A("b", 4, -1)>>
                  [] c = 3 -> <<A("b", 5, -1), A("a", 6, 3)>>
===============================================================================
