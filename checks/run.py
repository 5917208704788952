#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on the current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt

MODULE = {'C01': 'kernels', 'C02': 'kernels', 'C03': 'automata', 'C30': 'automata', 'C04': 'kernels', 'C08': 'kernels',
          'C17': 'params', 'C18': 'params', 'C19': 'params', 'C12': 'inputs', 'C13': 'inputs', 'C10': 'behave', 'C14': 'behave', 'C15': 'behave', 'C16': 'behave', 'C24': 'behave', 'C06': 'votes', 'C05': 'clause', 'C20': 'enums', 'C26': 'enums', 'C23': 'containers', 'C07': 'votes', 'C25': 'behave', 'C11': 'sources', 'C09': 'parjobs', 'C21': 'zero', 'C22': 'witness', 'C31': 'coins', 'C32': 'named', 'C33': 'epochs'}
LEVEL = {}


def add(r, name, more):
    n, v, u = more
    r['violations'] = list(r['violations']) + v
    r['undecided'] = list(r['undecided']) + u
    r['instances'] += n
    r['coverage'][name] = n
    r['coverage']['obligations'] = r['coverage'].get('obligations', 0) + n
    r['coverage']['discharged'] = r['coverage'].get('discharged', 0) + n - len(u) - len(v)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        name = MODULE[prop]
        if name == 'kernels' and prop != 'C02' and tier != 'thorough':
            name = 'automata'
        r = __import__(name).run(prop, tier)
        if prop in ('C01', 'C04', 'C08') and name == 'kernels':
            import initial
            add(r, 'initial_state_obligations', initial.results(tier, prop))
        if name == 'kernels':
            import automata
            add(r, 'update_table_obligations', automata.results(tier, prop))
        sys.exit(vt.report(prop, tier, LEVEL.get(prop, 'proof'), **r))
    except vt.Broken as e:
        print('BROKEN: %s' % e)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)


main()
