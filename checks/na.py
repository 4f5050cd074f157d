CHECKS = {}
NOT_APPLICABLE = {
 "X01": "the example and tool programs are main loops around sockets, files and option parsing; their code paths are dominated by system calls whose behaviour would have to be invented, so a solver verdict would be about the stubs, not the code",
 "D05": "the base point is multiplied on the Edwards curve with precomputed tables and mapped over; that this equals the Montgomery ladder, and that two ladders commute, are facts of the curve's group law, a matter for a proof assistant rather than bounded queries",
 "D03": "the approach of D02 needs the multiplication in the intermediate representation; the multiplication in p448 is inline x86-64 assembly, which is not in the compiler's intermediate representation",
 "D04": "agreement of the two sides is a statement about 1024 noise coefficients and number-theoretic transforms, probabilistic in the raw values; no bounded query over the real code expresses it",
 "G02": "verification of own signatures is an identity of scalar multiplications on the curve; it needs the group law and 512-bit modular products, out of reach of bit-vector solvers",
}
