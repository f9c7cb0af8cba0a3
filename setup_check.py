"""Setup: the framework is plain Python; this only makes sure that a worker can start and load the library."""
import subprocess, sys, os
import check
c = check.Check('C01', 'quick', 1)
try:
    w = check.Worker('C01', '1', c.cwd).start()
    r = w.generate('setup', 0, 'quick'); r = w.run(r['scn'], 600)
    w.stop()
    print('worker ok' if not r.get('harness_error') else r['harness_error'])
finally: c.close()
