"""Which check decides which property."""
import netchecks, seqchecks, ftnchecks, splitchecks, isingchecks, namechecks, graphchecks, constructchecks, mpschecks, latticechecks, helperchecks, libchecks

CHECKS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C16', 'C17', 'C18'):
    CHECKS[_p] = netchecks.net_check
CHECKS['C06'] = seqchecks.c06
CHECKS['C07'] = ftnchecks.c07
CHECKS['C21'] = ftnchecks.c21
CHECKS['C08'] = splitchecks.c08
CHECKS['C13'] = splitchecks.c13
CHECKS['C16'] = splitchecks.c16
CHECKS['C11'] = isingchecks.c11
CHECKS['C20'] = namechecks.c20
CHECKS['C19'] = graphchecks.c19
CHECKS['C12'] = constructchecks.c12
CHECKS['C09'] = mpschecks.c09
CHECKS['C10'] = mpschecks.c10
CHECKS['C14'] = latticechecks.c14
CHECKS['C15'] = latticechecks.c15
CHECKS['C22'] = helperchecks.c22
CHECKS['C23'] = libchecks.c23
