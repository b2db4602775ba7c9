"""re-checks the Lean proofs of the lemmas the obligations use"""
import os, re, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
LEAN = os.path.join(HERE, '..', 'lean')

# lemma (as used by the generator) -> (file, theorems)
LEMMAS = {
    'dense-index': ('Lemmas.lean', ['dense_index', 'dense_index_inv']),
    'pigeon': ('Lemmas.lean', ['pigeon']),
    'sum-edges': ('Lemmas.lean', ['sum_edges']),
    'count-steps': ('Lemmas.lean', ['count_steps']),
    'sorted-global': ('Lemmas.lean', ['sorted_global']),
    'prefix-mono': ('Lemmas.lean', ['prefix_mono']),
    'sum-update': ('Lemmas.lean', ['sum_update']),
    'sum-columns': ('Lemmas.lean', ['sum_columns']),
    'count': ('Lemmas.lean', ['count_place']),
    'nonzeros': ('Lemmas.lean', ['count_nonzero']),
    'bareiss-pivot': ('Bareiss.lean', ['elim_pivot']),
    'bareiss-step': ('Bareiss.lean', ['elim_step']),
    'bareiss-gap': ('Bareiss.lean', ['elim_gap']),
    'bareiss-outside': ('Bareiss.lean', ['elim_outside']),
    'bareiss-eliminated': ('Bareiss.lean', ['elim_eliminated']),
    'bareiss-frame': ('Bareiss.lean', ['elim_frame']),
    'bareiss-extend': ('Bareiss.lean', ['elim_extend']),
    'bareiss-minor': ('Bareiss.lean', ['elim_minor']),
    'bareiss-empty': ('Bareiss.lean', ['elim_empty']),
    'bareiss-singular': ('Bareiss.lean', ['elim_singular']),
    'bareiss-nonsingular': ('Bareiss.lean', ['elim_nonsingular']),
    'bareiss-augment': ('Bareiss.lean', ['elim_augment']),
    'bareiss-cramer': ('Bareiss.lean', ['elim_cramer']),
    'bareiss-solution': ('Bareiss.lean', ['elim_solution']),
    'lu-exact': ('Bareiss.lean', ['lu_exact']),
}
OKAX = {'propext', 'Classical.choice', 'Quot.sound'}


def check(names):
    out = []
    byfile = {}
    for n in names:
        if n not in LEMMAS:
            out.append((n, False, 'no Lean proof of this lemma'))
            continue
        byfile.setdefault(LEMMAS[n][0], []).append(n)
    for f, ns in byfile.items():
        src = open(os.path.join(LEAN, f)).read()
        thms = [t for n in ns for t in LEMMAS[n][1]]
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, f)
            open(p, 'w').write(src + ''.join('\n#print axioms %s' % t for t in thms) + '\n')
            try:
                r = subprocess.run(['lean', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                txt, rc = r.stdout.decode(), r.returncode
            except Exception as ex:
                txt, rc = repr(ex), 1
        for n in ns:
            ok, why = rc == 0 and 'sorry' not in src, '' if rc == 0 else 'Lean rejects the proof: ' + txt[:300]
            for t in LEMMAS[n][1]:
                m = re.search(r"'%s' depends on axioms: \[(.*?)\]" % re.escape(t), txt, re.S)
                m2 = re.search(r"'%s' does not depend on any axioms" % re.escape(t), txt)
                if m:
                    if not {a.strip() for a in m.group(1).replace('\n', ' ').split(',')} <= OKAX:
                        ok, why = False, 'the proof of %s uses extra axioms' % t
                elif not m2:
                    ok, why = False, why or 'theorem %s not found' % t
            out.append((n, ok, why))
    return out
