"""Interpreter that executes scenarios: one JSON object per line on stdin, one per line on stdout."""
import random, os, sys, json, traceback, importlib, time
out = os.fdopen(os.dup(1), 'w', buffering=1)
os.dup2(2, 1)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def reply(o): out.write(json.dumps(o) + '\n'); out.flush()

def main():
    mod = importlib.import_module('props.' + sys.argv[1].lower())
    getattr(mod, 'prepare', lambda: None)()
    reply({'ready': True})
    for line in sys.stdin:
        req = json.loads(line)
        t = time.time()
        try:
            if 'gen' in req:
                key, i, tier = req['gen']
                r = {'scn': mod.generate(random.Random(key), i, tier)}
            else: r = mod.execute(req['scn'])
        except BaseException as e:
            r = {'harness_error': ''.join(traceback.format_exception(e))[-6000:]}
            if isinstance(e, KeyboardInterrupt): pass
        r['id'] = req['id']; r['wall'] = time.time() - t
        reply(r)
main()
