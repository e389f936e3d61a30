REAL = "real arithmetic: doubles are read as the decimal reals they denote, floating-point rounding is not modelled"
MEM = "heap blocks come from malloc/new[] wrapped with canaries, poison and quarantine; std::vector storage is not monitored"
