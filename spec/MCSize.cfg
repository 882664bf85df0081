SPECIFICATION Spec
CONSTANTS
    Ns = {1, 3, 100}
    Ms = {500000000, 640000000, 838860800, 999999998}
    Ks = {1, 2, 3, 6, 7, 13, 20, 30}
    Es = {1, 4}
INVARIANTS Logs Bloom Quotient Cuckoo Grows
CHECK_DEADLOCK FALSE
