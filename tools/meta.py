"""Writes properties.jsonl and MANIFEST.json from one table:  python3 tools/meta.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_LOOPS = ("contract-based deductive verification of every registered loop: clang-extracted LLVM IR of the real generated C/C++, verification "
           "conditions with inductive loop invariants, discharged by z3; rejected obligations are replayed on the compiled loop")
PR, NA = [], []


def prop(id, title, statement, qtext, why, files, mech, level='proof', technique=T_LOOPS, note=None, over=('inputs',), state=(), claim=True):
    PR.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=list(files), mech=mech, level=level,
                   technique=technique, note=note, state=list(state), claim=claim))


NOTE = ("All inputs, all dimension sizes (below 2**60), all strides, all batch lengths; float arithmetic is IEEE-like with rounding abstracted "
        "(see DESIGN.md); libm functions are uninterpreted.")
exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PR:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                    why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                                 observe_at=p['files'][:1], hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['title']
    m = dict(version=1, setup_cmd="python3-vt -m dv.selftest", checks=[], not_applicable=[])
    for p in PR:
        if not p['claim']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['note']))
            continue
        m['checks'].append(dict(property=p['id'], quick_cmd=f"python3-vt -m dv.check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3-vt -m dv.check {p['id']}",
                                level=p['level'], level_note=p['note'] or NOTE, technique=p['technique']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
