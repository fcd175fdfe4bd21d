#!/usr/bin/env python3
"""run.py <property id> [--quick|--thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import lib_checks as L
import sys_checks as S
import omp_checks as O
import ex_checks as E
TABLE = {'C%02d' % i: getattr(L, 'c%02d' % i) for i in range(1, 6)}
TABLE.update({'C%02d' % i: getattr(S, 'c%02d' % i) for i in list(range(6, 21)) + [22]})
TABLE.update({'C21': O.c21, 'C23': E.c23})
if __name__ == '__main__':
    sys.exit(vf.main(TABLE))
