#!/usr/bin/env python3
"""Writes properties.jsonl, checks/*.json and MANIFEST.json from one description of all properties."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))

def run(s):
    """'Harness a=1,b=2 @weight # note' -> RunCfg"""
    note = ''
    if '#' in s:
        s, note = s.split('#', 1)
    f = s.split()
    r = {'harness': f[0]}
    for x in f[1:]:
        if x[0] == '@':
            r['weight'] = float(x[1:])
        elif x.startswith('steps='):
            r['steps'] = int(x[6:])
        else:
            r['params'] = {k: int(v) for k, v in (y.split('=') for y in x.split(','))}
    if note.strip():
        r['note'] = note.strip()
    return r

P = []
def prop(id, title, statement, over, text, why, files, mech, bounds, outside, quick, thorough, assumptions=(), quick_sec=200, thorough_sec=700, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds,
                  outside=outside, quick=quick, thorough=thorough, assumptions=list(assumptions), quick_sec=quick_sec, thorough_sec=thorough_sec, note=note))

exec(open(os.path.join(V, 'props.py')).read())

TRUST = ("the symbolic executor of /verif/engine (validated on each run: sampled paths are run natively and every observed value compared), "
         "go/ssa, z3 4.8.12 (a sample of queries is cross-checked by cvc5), Go's string/byte intrinsics modelled by the engine")
BASE = ["single-threaded execution of one call at a time, except where the property is about concurrent readers",
        "allocation never fails; map iteration order is treated as insertion order unless the harness says otherwise",
        "the reference meaning written in /verif/harness/h is what the README and the existing tests describe"]

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
    os.makedirs(os.path.join(V, 'checks'), exist_ok=True)
    for n in os.listdir(os.path.join(V, 'checks')):
        os.remove(os.path.join(V, 'checks', n))
    for p in P:
        spec = {'id': p['id'], 'bounds': p['bounds'], 'outside': p['outside'], 'assumptions': BASE + p['assumptions'],
                'quick_sec': p['quick_sec'], 'thorough_sec': p['thorough_sec'],
                'quick': [run(x) for x in p['quick']], 'thorough': [run(x) for x in p['quick'] + p['thorough']]}
        with open(os.path.join(V, 'checks', p['id'] + '.json'), 'w') as f:
            json.dump(spec, f, indent=1)
            f.write('\n')
    man = {'version': 1,
           'setup_cmd': 'bash setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']} quick", 'thorough_cmd': f"bash check.sh {p['id']} thorough",
                       'technique': 'symbolic execution of the current go/ssa form, every branch and assertion decided by a solver (bit-vectors, z3/cvc5); native replay of counterexamples',
                       'level': 'model_checking',
                       'level_note': 'Bounded: holds for every value within: ' + p['bounds'] + ' Trusted: ' + TRUST + '.' + (' ' + p['note'] if p['note'] else '')}
                      for p in P],
           'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
           'notes': 'No hooks in /repo: harnesses are compiled in through a go overlay as package zzverif. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')

ORACLE = {
 'C01': 'refMatch: the set of reachable positions of the template, computed without backtracking and without branches on symbolic values',
 'C02': 'no panic, no step limit (replayed as a hang with a time limit); a bracket automaton over the symbolic text says what must be rejected',
 'C03': 'refMatch of the original template against the real match of the reparsed normal form; the normal form of the normal form',
 'C04': 'refMatch of each glob alone; the set of reports with query and index; the returned number',
 'C05': 'a model of the maps of a tree with arbitrary 64-bit indexes; the answers of single expressions',
 'C06': 'refMatch of each level, with symbolic places of the dots',
 'C07': 'a reference split of the path',
 'C08': 'as C04, level by level',
 'C09': 'the conditions the query was written from, with all decorations; a character automaton for arbitrary text',
 'C10': 'each condition evaluated on the symbolic keys and values (refMatch, hand-written meaning of 7 regular expressions)',
 'C11': 'as C04, with conditions',
 'C12': 'the tags the path was made of; a reference decoding of arbitrary texts',
 'C13': 'the table of allowed bytes; the inverse function',
 'C14': 'a complete reference decoder on symbolic bytes (also broken escapes); agreement of the variants',
 'C15': 'the ordered product of the values; a reference reading of the text says which parts are kept',
 'C16': 'count of the results; meaning of their union (refMatch); the text of kept parts',
 'C17': 'interval membership on code points; other spellings of the same class',
 'C18': 'membership in the list of added bytes',
 'C19': 'refMatch implies the bounds; sums over the items',
 'C20': 'memory that is older than the call is frozen: a store to it (object, map, global; except into a sync.Pool) on any path is a violation; a repeated call',
 'C21': 'the list of reports, kept beside',
 'C22': 'refMatch of one item at every place',
 'C23': 'widths of the symbols the string was made of',
 'C24': 'refMatch of each glob on strings that do not start so; maximality to whole symbols; a scan for wildcard bytes',
 'C25': 'every random number is an arbitrary value of its range; refMatch and Match of the example',
 'C26': 'families of spellings over shared letters: equal normal form, bounds, ErrNodeExist from a tree',
 'C27': 'a reference reading of the text says what is wrong first; recover() tells if ParseMust panics',
}

def design():
    t = ''
    for p in P:
        hs = sorted({run(x)['harness'] for x in p['quick'] + p['thorough']})
        t += f"### {p['id']} {p['title']}\n\n* Harnesses: {', '.join(hs)} ({len(p['quick'])} quick runs, {len(p['thorough'])} more thorough ones, all listed in `checks/{p['id']}.json`).\n"
        t += f"* Oracle: {ORACLE[p['id']]}.\n* Bounds: {p['bounds']}\n* Outside: {p['outside']}\n* Beyond the tests: {p['why']}.\n"
        if p['note']:
            t += f"* {p['note']}\n"
        t += '\n'
    seeds, caught = '', {}
    f = os.path.join(V, 'caught.txt')
    if os.path.exists(f):
        for l in open(f):
            a = l.split()
            caught.setdefault(a[0], []).append((a[1], a[2]))
        seeds = '| change | breaks | needs | caught by |\n|---|---|---|---|\n'
        for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
            m = os.path.join(V, 'seeded', n, 'meta.json')
            if os.path.exists(m):
                d = json.load(open(m))
                c = [a for a, r in caught.get(n, []) if r == 'rc=1']
                seeds += f"| {n} | {d['property']}: {d['what_it_breaks']} | {d['needs']} | {', '.join(c) or 'none'} |\n"
    f = os.path.join(V, 'DESIGN.md')
    s = open(f).read()
    for k, x in (('props', t), ('seeds', seeds)):
        if x:
            s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m[1] + '\n' + x.rstrip('\n') + '\n\n' + m[2], s, flags=re.S)
    open(f, 'w').write(s)

main()
if os.path.exists(os.path.join(V, 'seeded')):
    design()
