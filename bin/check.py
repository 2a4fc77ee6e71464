#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
TABLE = {}
import compose, real, cont, packed, stdc, threads
TABLE.update(compose.CHECKS); TABLE.update(real.CHECKS); TABLE.update(cont.CHECKS); TABLE.update(packed.CHECKS); TABLE.update(stdc.CHECKS); TABLE.update(threads.CHECKS)
vlib.main(TABLE)
