"""edits that keep the behaviour: the verifier must stay quiet (discharged, or outside the annotations), never raise an alarm
usage: battery.py [name...]   works on a scratch copy of /repo"""
import os, sys, subprocess, shutil, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
S = 'SLIP_LU/Source/'
R = []


def r(name, file, fns, *edits):
    R.append((name, file, fns, edits))


FWD_HIST = '''                        // History update if necessary
                        if (hx < i-1)
                        {
                            // x[j] = x[j] * rhos[i-1]
                            SLIP_CHECK(SLIP_mpz_mul(SLIP_2D(x, jnew, k, mpz),
                                                    SLIP_2D(x, jnew, k, mpz),
                                                    SLIP_1D(rhos, i-1, mpz)));
                            // x[j] = x[j] / rhos[hx]
                            if (hx > -1)
                            {
                                SLIP_CHECK(
                                    SLIP_mpz_divexact(SLIP_2D(x, jnew, k, mpz),
                                                      SLIP_2D(x, jnew, k, mpz),
                                                      SLIP_1D(rhos, hx, mpz)));
                            }
                        }
'''
r('fwd-helper', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  (FWD_HIST, '                        SLIP_CHECK (history (SLIP_2D(x, jnew, k, mpz), hx, i, rhos)) ;\n'),
  ('SLIP_info slip_forward_sub\n(', '''static SLIP_info history (mpz_t e, int64_t last, int64_t now, const SLIP_matrix *rhos)
{
    SLIP_info s ;
    if (last >= now - 1) return (SLIP_OK) ;
    s = SLIP_mpz_mul (e, e, SLIP_1D (rhos, now-1, mpz)) ;
    if (s != SLIP_OK) return (s) ;
    if (last > -1)
    {
        s = SLIP_mpz_divexact (e, e, SLIP_1D (rhos, last, mpz)) ;
    }
    return (s) ;
}

SLIP_info slip_forward_sub
('''))
r('fwd-rename', S + 'slip_forward_sub.c', ['slip_forward_sub'], ('jnew', 'row'), ('hx', 'last'))
r('fwd-while', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  ('            for (j = L->p[i]; j < L->p[i+1]; j++)\n            {\n', '            j = L->p[i] - 1 ;\n            while (++j < L->p[i+1])\n            {\n'))
r('fwd-continue', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  ('                // j > i\n                if (jnew > i)\n                {\n', '                if (jnew <= i) {continue;}\n                {\n'))
r('fwd-order', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  ('''            hx = SLIP_2D(h, i, k, int64);
            // If x[i][k] = 0, can skip operations and continue to next i
            SLIP_CHECK(SLIP_mpz_sgn(&sgn, SLIP_2D(x, i, k, mpz)));
            if (sgn == 0) {continue;}
''', '''            SLIP_CHECK(SLIP_mpz_sgn(&sgn, SLIP_2D(x, i, k, mpz)));
            if (!sgn) continue;
            hx = SLIP_2D(h, i, k, int64);
'''))
r('fwd-locals', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  ('            for (j = L->p[i]; j < L->p[i+1]; j++)\n', '            const int64_t first = L->p[i], end = L->p[i+1];\n            for (j = first; j < end; ++j)\n'))
r('fwd-helper-loop', S + 'slip_forward_sub.c', ['slip_forward_sub'],
  ('    for (i = 0; i < x->nzmax; i++)\n    {\n        h->x.int64[i] = -1;\n    }\n', '    clear_history (h, x->nzmax) ;\n'),
  ('SLIP_info slip_forward_sub\n(', 'static void clear_history (SLIP_matrix *h, int64_t len)\n{\n    for (int64_t t = 0; t < len; t++) h->x.int64[t] = -1;\n}\n\nSLIP_info slip_forward_sub\n('))
r('back-locals', S + 'slip_back_sub.c', ['slip_back_sub'],
  ('            for (int64_t i = Up[j]; i < Up[j+1]-1; i++)\n', '            int64_t diag = Up[j+1]-1;\n            for (int64_t i = Up[j]; i != diag; i++)\n'))
r('back-rename', S + 'slip_back_sub.c', ['slip_back_sub'],
  ('for (int64_t i = Up[j]; i < Up[j+1]-1; i++)', 'for (int64_t q = Up[j]; q < Up[j+1]-1; q++)'), ('Ux[i]', 'Ux[q]'), ('Ui[i]', 'Ui[q]'))
r('back-count', S + 'slip_back_sub.c', ['slip_back_sub'],
  ('for (int64_t j = U->n-1; j >= 0; j--)\n        {\n', 'for (int64_t t = U->n; t > 0; t--)\n        {\n            const int64_t j = t-1;\n'))
r('small-for', S + 'slip_get_smallest_pivot.c', ['slip_get_smallest_pivot'],
  ('for (i = j; i < n; i++)\n    {\n        inew = xi[i];', 'for (i = j; i < n; i++)\n    {\n        inew = xi[i];\n        if (pivs[inew] >= 0) continue;'))
r('small-break', S + 'slip_get_smallest_pivot.c', ['slip_get_smallest_pivot'],
  ('''    while (flag > -1 && flag < n)
    {''', '''    for ( ; flag < n; flag++)
    {'''),
  ('''            // Exit the while loop
            flag = -5;
        }
        // Increment to next nonzero to search
        flag += 1;
''', '''            break;
        }
'''))
r('permb-swap', S + 'slip_permute_b.c', ['slip_permute_b'],
  ('for (int64_t i = 0 ; i < m ; i++)', 'for (int64_t J = 0 ; J < n ; J++)'), ('for (int64_t j = 0 ; j < n ; j++)', 'for (int64_t i = 0 ; i < m ; i++)'),
  ('SLIP_2D(b,  pinv[i], j, mpz)', 'SLIP_2D(b,  pinv[i], J, mpz)'), ('SLIP_2D(b2,   i,     j, mpz)', 'SLIP_2D(b2,   i,     J, mpz)'))
r('permb-swap2', S + 'slip_permute_b.c', ['slip_permute_b'],
  ('for (int64_t i = 0 ; i < m ; i++)', 'for (int64_t jj = 0 ; jj < n ; jj++)'), ('for (int64_t j = 0 ; j < n ; j++)', 'for (int64_t i = 0 ; i < m ; i++)'),
  ('for (int64_t jj = 0 ; jj < n ; jj++)', 'for (int64_t j = 0 ; j < n ; j++)'))
r('div-helper', S + 'slip_matrix_div.c', ['slip_matrix_div'],
  ('''        // Set x2[i] = x[i]
        SLIP_CHECK (SLIP_mpq_set_num (x2->x.mpq[i], x->x.mpz[i])) ;
        // x2[i] = x2[i] / scalar2
        SLIP_CHECK (SLIP_mpq_div (x2->x.mpq[i], x2->x.mpq[i], scalar2)) ;
''', '        SLIP_CHECK (quotient (x2->x.mpq[i], x->x.mpz[i], scalar2)) ;\n'),
  ('SLIP_info slip_matrix_div //', '''static SLIP_info quotient (mpq_t r, const mpz_t a, const mpq_t d)
{
    SLIP_info s = SLIP_mpq_set_num (r, a) ;
    if (s == SLIP_OK) s = SLIP_mpq_div (r, r, d) ;
    return (s) ;
}

SLIP_info slip_matrix_div //'''))
r('fact-helper-perm', S + 'SLIP_LU_factorize.c', ['SLIP_LU_factorize'],
  ('''    for (i = 0; i < lnz; i++)
    {
        L->i[i] = pinv[L->i[i]];
    }
''', '    to_pivotal_order (L->i, lnz, pinv) ;\n'),
  ('''    for (i = 0; i < unz; i++)
    {
        U->i[i] = pinv[U->i[i]];
    }
''', '    to_pivotal_order (U->i, unz, pinv) ;\n'),
  ('SLIP_info SLIP_LU_factorize\n(', '''static void to_pivotal_order (int64_t *Ti, int64_t nz, const int64_t *pinv)
{
    for (int64_t t = 0; t < nz; t++)
    {
        Ti[t] = pinv[Ti[t]];
    }
}

SLIP_info SLIP_LU_factorize
('''))
r('dfs-bool', S + 'slip_dfs.c', ['slip_dfs'], ('if (done != 0)', 'if (done)'), ('xi[--(*top)] = j;', '*top = *top - 1;\n            xi[*top] = j;'), ('xi[++head] = i;', 'head++;\n            xi[head] = i;'))
r('reach-var', S + 'slip_reach.c', ['slip_reach'],
  ('        if (!SLIP_MARKED(L->p, A->i[p]))\n        {\n            slip_dfs(top, A->i[p], L, xi, xi+n, pinv);', '        const int64_t i = A->i[p];\n        if (!SLIP_MARKED(L->p, i))\n        {\n            slip_dfs(top, i, L, xi, xi+n, pinv);'))
r('tri-merge', S + 'slip_ref_triangular_solve.c', ['slip_ref_triangular_solve'],
  ('''    for (i = top; i < n; i++)
    {
        SLIP_CHECK (SLIP_mpz_set_ui (x_mpz[xi [i]], 0)) ;
    }
''', '''    for (i = top; i < n; i++)
    {
        SLIP_CHECK (SLIP_mpz_set_ui (x_mpz[xi [i]], 0)) ;
        h[xi[i]] = -1;
    }
'''), ('''    for (i = top; i < n; i++)
    {
        h[xi[i]] = -1;
    }

''', ''))
r('tri-hist', S + 'slip_ref_triangular_solve.c', ['slip_ref_triangular_solve'],
  ('''                        // No previous pivot
                        if (jnew < 1)
                        {
                            // x[i] = 0 - lij*x[j]
                            SLIP_CHECK(SLIP_mpz_submul(x_mpz[i], Lx_mpz[m],
                                x_mpz[j]));
                            h[i] = jnew;   // Entry is up to date
                        }

                        // Previous pivot exists
                        else
                        {
                            // x[i] = 0 - lij*x[j]
                            SLIP_CHECK(SLIP_mpz_submul(x_mpz[i], Lx_mpz[m],
                                x_mpz[j]));

                            // x[i] = x[i] / rho[j-1]
''', '''                        SLIP_CHECK(SLIP_mpz_submul(x_mpz[i], Lx_mpz[m],
                            x_mpz[j]));
                        h[i] = jnew;   // Entry is up to date
                        if (jnew >= 1)
                        {
'''), ('''                            SLIP_CHECK(SLIP_mpz_divexact(x_mpz[i], x_mpz[i],
                                rhos_mpz[jnew-1]));
                            h[i] = jnew;   // Entry is up to date
                        }
                    }

''', '''                            SLIP_CHECK(SLIP_mpz_divexact(x_mpz[i], x_mpz[i],
                                rhos_mpz[jnew-1]));
                        }
                    }

'''))
r('solve-block', S + 'SLIP_LU_solve.c', ['SLIP_LU_solve:main'],
  ('''    bool check = SLIP_OPTION_CHECK (option) ;
    if (check)
    {
''', '''    if (SLIP_OPTION_CHECK (option))
    {
'''), ('    int r;\n', ''), ('    int sgn', '    int sgn') if False else ('    mpq_t scale ;\n', '    mpq_t scale ;\n    int r = 0;\n'))
r('solve-loop', S + 'SLIP_LU_solve.c', ['SLIP_LU_solve:main'],
  ('    int64_t nz = x->m * x->n;\n    if (r != 0 )\n    {\n        for (i = 0; i < nz; i++)\n', '    if (r != 0 )\n    {\n        const int64_t count = x->m * x->n;\n        for (i = 0; i < count; i++)\n'))
r('backslash-early', S + 'SLIP_backslash.c', ['SLIP_backslash:MPQ colamd', 'SLIP_backslash:FP64 none'],
  ('''    if (type == SLIP_MPQ)
    {
        (*X_handle) = x ;
    }
    else
    {
        SLIP_matrix* x2 = NULL ;
        SLIP_CHECK (SLIP_matrix_copy (&x2, SLIP_DENSE, type, x, option)) ;
        (*X_handle) = x2 ;
        SLIP_matrix_free (&x, NULL) ;
    }
''', '''    if (type != SLIP_MPQ)
    {
        SLIP_matrix* x2 = NULL ;
        SLIP_CHECK (SLIP_matrix_copy (&x2, SLIP_DENSE, type, x, option)) ;
        SLIP_matrix_free (&x, NULL) ;
        x = x2 ;
    }
    (*X_handle) = x ;
'''))


def main():
    T = '/tmp/refbat'
    if os.path.exists(T):
        shutil.rmtree(T)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    os.makedirs(T)
    for d in ('SLIP_LU', 'AMD', 'COLAMD', 'SuiteSparse_config'):
        shutil.copytree('/repo/' + d, T + '/' + d, symlinks=True)
    want = sys.argv[1:]
    env = dict(os.environ, VERIF_REPO=T, VERIF_TO='6000', VERIF_TO2='8000', NB='4')
    for name, file, fns, edits in R:
        if want and name not in want:
            continue
        src = open('/repo/' + file).read()
        s = src
        bad = ''
        for a, b in edits:
            if a not in s:
                bad += ' EDIT DOES NOT APPLY: ' + a[:50].replace('\n', '|')
            s = s.replace(a, b)
        if name == 'permb-swap2':
            s = src.replace('for (int64_t i = 0 ; i < m ; i++)', '@1').replace('for (int64_t j = 0 ; j < n ; j++)', '@2').replace('@1', 'for (int64_t j = 0 ; j < n ; j++)').replace('@2', 'for (int64_t i = 0 ; i < m ; i++)')
        open(T + '/' + file, 'w').write(s)
        t0 = time.time()
        p = subprocess.run(['python3-vt', '-m', 'cverif.verify'] + fns, cwd=HERE + '/../..', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(T + '/' + file, 'w').write(src)
        lines = [l for l in p.stdout.split('\n') if l.strip()]
        print('== %-16s %s %.0fs%s' % (name, lines[-1].split()[0], time.time() - t0, bad), flush=True)
        for l in lines[:-1]:
            if '<<<<' in l or l.startswith('    '):
                print('   ', l[:170])
    shutil.rmtree(T)


main()
