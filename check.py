#!/usr/bin/env python3
"""check.py <property>: exit 0 if the property held on everything explored, 1 with a VIOLATION line otherwise."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.set_int_max_str_digits(0)
import run as R, points, sessions, budgets, pairs, logs, optcheck, comps, seqs, algos, worlds, memory, timing
TABLE = dict(C01=points.C01, C02=points.C02, C03=points.C03, C04=points.C04, C07=sessions.C07, C08=sessions.C08, C11=sessions.C11,
             C05=budgets.C05, C06=budgets.C06, C09=pairs.C09, C12=logs.C12, C10=optcheck.C10, C19=points.C19, C21=points.C21,
             C13=comps.C13, C14=comps.C14, C15=comps.C15, C16=comps.C16, C17=comps.C17, C18=seqs.C18, C20=algos.C20, C22=worlds.C22, C23=seqs.C23, C24=sessions.C24, C25=memory.C25, C26=seqs.C26, C27=seqs.C27, C28=timing.C28)
LEVEL = dict(C22='model_checking')
if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        R.build('api', 'api.cc'); memory.prebuild(); R.build("comp", "comp.cc", need=False); R.build("seq", "seq.cc", need=False); R.build("algo", "algo.cc", need=False); R.build("world", "world.cc", need=False); R.build("objs", "objs.cc", need=False); R.build("protocol", "protocol.cc", need=False); R.build("ldl", "ldl.cc", need=False)
        print('ready'); sys.exit(0)
    r = R.Run(pid, LEVEL.get(pid, 'exploration'))
    TABLE[pid](r)
    r.finish()
