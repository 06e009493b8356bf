"""Single table of properties -> properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, level='proof', technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, level=level, technique=technique, note=note, na=na))


PYT = ('contracts on the unmodified Python functions, discharged by z3 over every path and input (engine pv/sym.py: the '
       'module text of /repo is executed on symbolic values each run); counterexamples replayed on the real code')
IRT = ('contracts on the C++ functions, compiled by clang to LLVM IR from /repo each run and executed symbolically over every '
       'path and every input byte (engine pv/irx.py, CPython/NumPy C-API contracts pv/capi.py), discharged by z3; '
       'counterexamples replayed on a freshly compiled extension')

exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['quant']},
                                 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'],
                                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    man = {'version': 1,
           'setup_cmd': 'true',
           'hooks': {'guard': 'LSLVERIF_HOOKS', 'enable': 'none needed: no hook was added to /repo'},
           'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                      for p in sorted(P, key=lambda p: p['id']) if not p['na']],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in sorted(P, key=lambda p: p['id']) if p['na']],
           'notes': 'See DESIGN.md. Every check re-reads /repo (Python source executed symbolically, C++ compiled to LLVM IR) on every run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
