SPECIFICATION Spec
CONSTANTS
    Ns = {1, 2, 3, 10, 100, 999}
    Ms = {500000000, 512000000, 640000000, 838860800, 999999998, 1000000000}
    Ks = {1, 2, 3, 5, 6, 7, 13, 20, 30}
    Es = {1, 3, 4, 7}
INVARIANTS Logs Bloom Quotient Cuckoo Grows
CHECK_DEADLOCK FALSE
