"""Rerun the failing inputs of a replay file against the current sources."""
import json, sys
def main(p):
    d = json.load(open(p)); bad = 0
    for h in d.get('failing_inputs') or []:
        c = h['case']
        if 'equation' in c:
            from .numrun import Case
            r = Case(c['equation'], c['ndim'], c['accuracy'], c['pass'], c['seed'], c['dtype'], **c['over']).run()
            print(c['equation'], c['ndim'], c['accuracy'], c['pass'], c['seed'], 'FAILS' if r else 'passes', r[:4]); bad |= bool(r)
    print(d['obligation']); return int(bad)
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
