"""Algebraic identities across operations, and operands that are the same object."""
from .common import *
from .c08 import FAM as DF

BOUNDS = ["float and double in exact real arithmetic, every matrix of the given size: associativity/distributivity of the product (sizes up to 4), transpose of a product, "
          "det of a product, transpose, row exchange, scaling and inverse (n <= 3, products of triangular matrices n = 4), inverse of a product, transpose, inverse and power (n <= 3), "
          "pow(p)*pow(q) (n = 2, exponents 0..4), LU and Cholesky consistency with det (n <= 4), convolution linearity and agreement of its three variants, "
          "mean/variance under shift and scale, concatenation and transpose",
          "larger: product laws up to 12x12x12, determinant laws on families up to n = 12, inverse laws on families up to n = 7, LU laws on families up to n = 17, Cholesky n <= 8, convolution laws up to 17x13, mean and variance up to 35 elements, concatenation n <= 12, self-operand laws up to 17x17 and 1x300",
          "unsigned: ring identities modulo 2^32",
          "results assigned back to an operand, and both operands the same object: sum, difference, product, transpose, concatenation, inverse, power, abs, convolution"]


def law(name, t, body, ins, outs, pairs, **kw):
    def spec(k, I, O):
        for x, y in pairs:
            X, Y = getattr(O, x), getattr(O, y)
            if isinstance(X, list):
                k.eqmat(X, Y, x)
            else:
                k.eq(X, Y, x)
    return Entry('law_%s_%s' % (name, TN[t]), body, ins, outs, spec, mode='real' if is_float(t) else 'fp', any_throw=True,
                 tol=2e-3 if t == 'float' else 1e-8, **kw)


def entries(tier):
    th = tier == 'thorough'
    out = []
    for t in ('float', 'double'):
        def two(name, n, m, body, ins, **kw):
            out.append(law(name, t, body, ins, [M('X', t, n, m), M('Y', t, n, m)], [('X', 'Y')], **kw))

        def sc(name, body, ins, **kw):
            out.append(law(name, t, body, ins, [S('x', t), S('y', t)], [('x', 'y')], **kw))
        A = lambda n, m: M('A', t, n, m)
        B = lambda n, m: M('B', t, n, m)
        C = lambda n, m: M('C', t, n, m)
        for n, m, p, q in ((2, 2, 2, 2), (1, 3, 2, 4), (3, 3, 3, 3), (2, 5, 3, 1)) + (((4, 4, 4, 4),) if th else ()):
            two('assoc_%d%d%d%d' % (n, m, p, q), n, q, 'X = (A*B)*C;\n  Y = A*(B*C);', [A(n, m), B(m, p), C(p, q)])
            two('trprod_%d%d%d' % (n, m, p), p, n, 'X = trans(A*B);\n  Y = trans(B)*trans(A);', [A(n, m), B(m, p)])
            two('distr_%d%d%d' % (n, m, p), n, p, 'X = A*(B+C);\n  Y = A*B + A*C;', [A(n, m), B(m, p), C(m, p)])
            two('distl_%d%d%d' % (n, m, p), n, p, 'X = (A-B)*C;\n  Y = A*C - B*C;', [A(n, m), B(n, m), C(m, p)])
        for n in (1, 2, 3, 4, 6):
            two('unit_%d' % n, n, n, 'X = eye<%s,%d>()*A;\n  Y = A*eye<%s,%d>();' % (t, n, t, n), [A(n, n)])
            two('scal_%d' % n, n, n, 'X = (s*A)*(A*s);\n  Y = (A*A)*(s*s);', [A(n, n), S('s', t)])
        for n in (1, 2, 3):
            sc('detprod_%d' % n, 'x = det(A*B);\n  y = det(A)*det(B);', [A(n, n), B(n, n)])
            sc('dettr_%d' % n, 'x = det(trans(A));\n  y = det(A);', [A(n, n)])
            sc('detscal_%d' % n, 'x = det(A*s);\n  y = det(A);\n  for (int k = 0; k < %d; k++) y *= s;' % n, [A(n, n), S('s', t)])
            if n > 1:
                sc('detswap_%d' % n, 'auto R = A; swap_rows(R, 0, %d); x = det(R);\n  y = -det(A);' % (n - 1), [A(n, n)])
                sc('detswapc_%d' % n, 'auto R = A; swap_cols(R, %d, 0); x = det(R);\n  y = -det(A);' % (n - 1), [A(n, n)])
            sc('detinv_%d' % n, 'x = det(inv(A))*det(A);\n  y = 1;', [A(n, n)])
            two('invtr_%d' % n, n, n, 'X = inv(trans(A));\n  Y = trans(inv(A));', [A(n, n)])
            two('invinv_%d' % n, n, n, 'X = inv(inv(A));\n  Y = A;', [A(n, n)])
            two('invpow_%d' % n, n, n, 'X = inv(A);\n  Y = pow(A, -1);', [A(n, n)])
            two('invscal_%d' % n, n, n, 'X = inv(A*s);\n  Y = inv(A)/s;', [A(n, n), S('s', t)])
            if n < 3 or th:
                two('invprod_%d' % n, n, n, 'X = inv(A*B);\n  Y = inv(B)*inv(A);', [A(n, n), B(n, n)], budget=200)
            two('solve_%d' % n, n, 1, 'X = A*(inv(A)*B);\n  Y = B;', [A(n, n), B(n, 1)])
        sc('dettr_4', 'x = det(trans(A));\n  y = det(A);', [A(4, 4)], budget=300, max_paths=60000, build=pattern('A', ['* * 1 0', '* 2 * 0', '0 * 1 *', '3 0 * *']))
        sc('detswap_4', 'auto R = A; swap_rows(R, 1, 3); x = det(R);\n  y = -det(A);', [A(4, 4)], budget=300, max_paths=60000, build=pattern('A', ['* * 1 0', '* 2 * 0', '0 * 1 *', '3 0 * *']))
        two('invtr_4', 4, 4, 'X = inv(trans(A));\n  Y = trans(inv(A));', [A(4, 4)], budget=300, max_paths=60000, build=pattern('A', ['0 * 1 0', '* 2 0 0', '0 0 1 *', '3 0 * 1']))
        two('invinv_4', 4, 4, 'X = inv(inv(A));\n  Y = A;', [A(4, 4)], budget=300, max_paths=60000, build=pattern('A', ['0 * 1 0', '* 2 0 0', '0 0 1 *', '3 0 * 1']))
        for p, q in ((0, 3), (1, 2), (2, 2), (3, 4), (1, 4)):
            two('powadd_%d%d' % (p, q), 2, 2, 'X = pow(A, %d)*pow(A, %d);\n  Y = pow(A, %d);' % (p, q, p + q), [A(2, 2)])
        two('powmul', 2, 2, 'X = pow(pow(A, 2), 3);\n  Y = pow(A, 6);', [A(2, 2)])
        two('powneg', 2, 2, 'X = pow(A, -3);\n  Y = inv(A*A*A);', [A(2, 2)])
        two('powtr', 3, 3, 'X = trans(pow(A, 3));\n  Y = pow(trans(A), 3);', [A(3, 3)])
        sc('powdet', 'x = det(pow(A, 3));\n  y = det(A)*det(A)*det(A);', [A(2, 2)])
        for n in (1, 2, 3, 4):
            sc('ludet_%d' % n, 'auto r = lu(A); x = 1;\n  for (int k = 0; k < %d; k++) x *= r.second[k][k];\n  y = det(A);' % n, [A(n, n)], budget=200, max_paths=20000)
            two('luprod_%d' % n, n, n, 'auto r = lu(A);\n  X = r.first*r.second;\n  Y = A;', [A(n, n)])
        for n in (1, 2, 3, 4):
            # G lower triangular with positive diagonal: G*G^T is every symmetric positive definite matrix
            def asm(k, I, n=n):
                return [('>', I.A[i][i]) for i in range(n)]
            two('chol_%d' % n, n, n, 'X = chol(A*trans(A));\n  Y = A;', [A(n, n)], assume=asm,
                build=pattern('A', [' '.join('g%d%d' % (i, j) if j <= i else '0' for j in range(n)) for i in range(n)]))
        for n, m in ((3, 3), (4, 5), (1, 4), (3, 1)):
            two('convlin_%d%d' % (n, m), n, m, 'X = conv2(A+B, K);\n  Y = conv2(A, K) + conv2(B, K);', [A(n, m), B(n, m), M('K', t, 3, 3)])
            two('convker_%d%d' % (n, m), n, m, 'X = conv2(A, K+L);\n  Y = conv2(A, K) + conv2(A, L);', [A(n, m), M('K', t, 3, 3), M('L', t, 3, 3)])
            two('convfull_%d%d' % (n, m), n, m, 'auto F = conv2_full(A, K);\n  for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) X[i][j] = F[i+1][j+1];\n  Y = conv2(A, K);' % (n, m), [A(n, m), M('K', t, 3, 3)])
            two('convtr_%d%d' % (n, m), m, n, 'X = conv2(trans(A), trans(K));\n  Y = trans(conv2(A, K));', [A(n, m), M('K', t, 3, 3)])
            if n > 2 and m > 2:
                two('convvalid_%d%d' % (n, m), n - 2, m - 2, 'auto F = conv2_full(A, K);\n  for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) X[i][j] = F[i+2][j+2];\n  Y = conv2_valid(A, K);' % (n - 2, m - 2), [A(n, m), M('K', t, 3, 3)])
        two('convcom', 5, 5, 'X = conv2_full(A, B);\n  Y = conv2_full(B, A);', [A(3, 3), B(3, 3)])
        for n, m in ((1, 1), (2, 3), (3, 3), (5, 1)):
            sc('meanshift_%d%d' % (n, m), 'x = mean(A + s);\n  y = mean(A) + s;', [A(n, m), S('s', t)])
            sc('meantr_%d%d' % (n, m), 'x = mean(trans(A));\n  y = mean(A);', [A(n, m)])
            sc('varshift_%d%d' % (n, m), 'x = var(A + s);\n  y = var(A);', [A(n, m), S('s', t)])
            sc('varscale_%d%d' % (n, m), 'x = var(A*s);\n  y = s*s*var(A);', [A(n, m), S('s', t)])
            sc('vartr_%d%d' % (n, m), 'x = var(trans(A));\n  y = var(A);', [A(n, m)])
            if n * m <= 5:
                two('absidem_%d%d' % (n, m), n, m, 'X = mlib::abs(mlib::abs(A));\n  Y = mlib::abs(A*static_cast<%s>(-1));' % t, [A(n, m)], max_paths=20000)
        for n in (1, 2, 3):
            sc('varconst_%d' % n, 'x = var(fill<%s,%d,%d>(s));\n  y = 0;' % (t, n, n), [S('s', t)])
            two('cattr_%d' % n, 2 * n, n, 'X = concatenate(trans(A), trans(B)).first;\n  Y = trans(concatenate(A, B).second);', [A(n, n), B(n, n)])
            two('cathv_%d' % n, n, 2 * n, 'X = concatenateH(A, B);\n  Y = trans(concatenateV(trans(A), trans(B)));', [A(n, n), B(n, n)])
        two('catmul', 2, 5, 'X = A*concatenate(B, C);\n  Y = concatenate(A*B, A*C);', [A(2, 3), B(3, 2), C(3, 3)])
        # operands that are the same object, results assigned back
        two('aself_add', 3, 3, 'X = A;\n  X = X + X;\n  Y = A*static_cast<%s>(2);' % t, [A(3, 3)])
        two('aself_sub', 3, 3, 'X = A;\n  X = X - X;\n  Y = zeros<%s,3,3>();' % t, [A(3, 3)])
        two('aself_mul', 3, 3, 'X = A;\n  X = X * X;\n  Matrix<%s,3,3> P = A;\n  Y = A * P;' % t, [A(3, 3)])
        two('aself_tr', 3, 3, 'X = A;\n  X = trans(X);\n  X = trans(X);\n  Y = A;', [A(3, 3)])
        two('aself_inv', 3, 3, 'X = A;\n  X = inv(X);\n  Y = A;\n  Y = pow(Y, -1);', [A(3, 3)])
        two('aself_conv', 3, 3, 'X = A;\n  X = conv2(X, X);\n  Matrix<%s,3,3> P = A;\n  Y = conv2(A, P);' % t, [A(3, 3)])
        two('aself_cat', 4, 2, 'X = concatenate(A, A).first;\n  Matrix<%s,2,2> P = A;\n  Y = concatenateV(A, P);' % t, [A(2, 2)])
        two('aself_str', 2, 2, 'X = A;\n  X = strassen(X, X);\n  Y = A*A;', [A(2, 2)])
        two('aself_scal', 3, 2, 'X = A;\n  X = X * X[0][0];\n  const %s s = A[0][0];\n  Y = s * A;' % t, [A(3, 2)])
        two('aself_div', 3, 2, 'X = A;\n  X = X / X[0][0];\n  const %s s = A[0][0];\n  Y = A / s;' % t, [A(3, 2)])
        two('aself_adds', 3, 2, 'X = A;\n  X = X + X[0][0];\n  const %s s = A[0][0];\n  Y = s + A;' % t, [A(3, 2)])
        two('aself_subs', 3, 2, 'X = A;\n  X = X - X[0][0];\n  const %s s = A[0][0];\n  Y = A - s;' % t, [A(3, 2)])
        two('incdec', 3, 2, 'X = A;\n  X = (X++)--;\n  Y = A;', [A(3, 2)])
        two('swapswap', 4, 3, 'X = A; swap_rows(X, 1, 3); swap_cols(X, 0, 2); swap_rows(X, 3, 1); swap_cols(X, 2, 0);\n  Y = A;', [A(4, 3)])
        two('swaptr', 3, 4, 'X = A; swap_cols(X, 1, 3);\n  auto R = trans(A); swap_rows(R, 1, 3); Y = trans(R);', [A(3, 4)])
        sc('laplace', 'x = 0;\n  for (std::size_t j = 0; j < 3; j++) x += (j % 2 ? -1 : 1)*A[1][j]*det(getminor(A, 1, j));\n  y = -det(A);', [A(3, 3)])
        # larger sizes
        FAM = dict(DF)
        FAM.update({'rev8': grid(8, lambda i, j: ('*' if i in (1, 6) else i - 9) if i + j == 7 else 0), 'diag9': grid(9, lambda i, j: ('*' if i in (1, 7, 8) else 2) if i == j else 0),
                    'cyc10': permuted(10, 1, lambda i: i in (2, 9)), 'step11': permuted(11, 3, lambda i: i == 5), 'upper10': grid(10, lambda i, j: ('*' if i in (1, 8) else 2) if i == j else (i + 2 * j) % 5 - 2 if j > i else 0),
                    'tri7': grid(7, lambda i, j: ('*' if i in (1, 5) else -1) if i == j else (i + 2 * j) % 5 - 2 if j > i else 0), 'band12': tridiag(12, (5,))})
        for n, m, p in ((5, 6, 4), (8, 8, 8), (3, 17, 2), (12, 12, 12)):
            if t == 'double' and n * m * p > 150:
                continue
            two('trprod_%dx%dx%d' % (n, m, p), p, n, 'X = trans(A*B);\n  Y = trans(B)*trans(A);', [A(n, m), B(m, p)])
            two('distr_%dx%dx%d' % (n, m, p), n, p, 'X = A*(B+C);\n  Y = A*B + A*C;', [A(n, m), B(m, p), C(m, p)])
            two('distl_%dx%dx%d' % (n, m, p), n, p, 'X = (A-B)*C;\n  Y = A*C - B*C;', [A(n, m), B(n, m), C(m, p)])
        two('assoc_5643', 5, 3, 'X = (A*B)*C;\n  Y = A*(B*C);', [A(5, 6), B(6, 4), C(4, 3)])
        for n in (9, 12, 17):
            two('unit_%d' % n, n, n, 'X = eye<%s,%d>()*A;\n  Y = A*eye<%s,%d>();' % (t, n, t, n), [A(n, n)])
        for f in ('perm5', 'lowzero5', 'mid5', 'rank5', 'swap6', 'dense6', 'tri7', 'rev8', 'two8', 'diag9', 'cyc10', 'step11', 'dense9', 'upper10', 'band12'):
            n = len(FAM[f])
            if t == 'double' and n > 8:
                continue
            b = pattern('A', FAM[f])
            sc('dettr_' + f, 'x = det(trans(A));\n  y = det(A);', [A(n, n)], build=b, budget=100)
            sc('detswap_' + f, 'auto R = A; swap_rows(R, 1, %d); x = det(R);\n  y = -det(A);' % (n - 2), [A(n, n)], build=b, budget=100)
            sc('detswapc_' + f, 'auto R = A; swap_cols(R, %d, 0); x = det(R);\n  y = -det(A);' % (n - 1), [A(n, n)], build=b, budget=100)
            if n <= 9:
                sc('detneg_' + f, 'x = det(A*static_cast<%s>(-2));\n  y = det(A)*static_cast<%s>(%d);' % (t, t, (-2) ** n), [A(n, n)], build=b, budget=100)
            if f not in ('band12', 'upper10', 'tri7'):
                sc('detmul_' + f, 'x = det(A*B);\n  y = det(A)*det(B);', [A(n, n), B(n, n)], budget=100,
                   build=lambda k, b=b, n=n: dict(b(k), B=grid(n, lambda i, j: (2 if i % 2 else -1) if j == (i * 1 + 2) % n else 1 if j == i + 1 else 0)))
        for f, rows in (('bid5', ['* 1 0 0 0', '0 2 1 0 0', '0 0 * 1 0', '0 0 0 1 1', '0 0 0 0 3']), ('perm5', ['0 0 * 0 0', '* 0 0 0 0', '0 0 0 0 2', '0 * 0 0 0', '0 0 0 1 0']), ('two6', ['2 0 0 0 1 0', '0 1 0 0 0 3', '0 0 0 1 0 0', '0 * 1 0 0 0', '1 0 0 0 1 0', '0 0 0 0 0 -1']),
                        ('cyc7', permuted(7, 1, lambda i: i == 3))):
            n = len(rows)
            b = pattern('A', rows)
            two('invtr_' + f, n, n, 'X = inv(trans(A));\n  Y = trans(inv(A));', [A(n, n)], build=b, budget=100)
            two('invinv_' + f, n, n, 'X = inv(inv(A));\n  Y = A;', [A(n, n)], build=b, budget=100)
            two('invpow_' + f, n, n, 'X = inv(A);\n  Y = pow(A, -1);', [A(n, n)], build=b, budget=100)
            sc('detinv_' + f, 'x = det(inv(A))*det(A);\n  y = 1;', [A(n, n)], build=b, budget=100)
            two('solve_' + f, n, 1, 'X = A*(inv(A)*B);\n  Y = B;', [A(n, n), B(n, 1)], budget=100, build=lambda k, b=b, n=n: dict(b(k), B=[[i * i - 3] for i in range(n)]))
        two('powadd_f6', 6, 6, 'X = pow(A, 5)*pow(A, 6);\n  Y = pow(A, 11);', [A(6, 6)], build=pattern('A', grid(6, lambda i, j: 1 if j == (i + 1) % 6 else 'x' if (i, j) == (2, 2) else 0)))
        two('powadd_big', 2, 2, 'X = pow(A, 120)*pow(A, 13);\n  Y = pow(A, 133);', [A(2, 2)], build=pattern('A', ['1 x', '0 1']))
        two('powaddneg', 2, 2, 'X = pow(A, 5)*pow(A, -3);\n  Y = A*A;', [A(2, 2)], budget=100)
        two('luprod_5', 5, 5, 'auto r = lu(A);\n  X = r.first*r.second;\n  Y = A;', [A(5, 5)], budget=150)
        from .c10 import FAM as LF
        for f, rows in LF.items():
            n = len(rows)
            two('luprod_' + f, n, n, 'auto r = lu(A);\n  X = r.first*r.second;\n  Y = A;', [A(n, n)], build=pattern('A', rows), budget=100)
            if n <= 12:
                sc('ludet_' + f, 'auto r = lu(A); x = 1;\n  for (int k = 0; k < %d; k++) x *= r.second[k][k];\n  y = det(A);' % n, [A(n, n)], build=pattern('A', rows), budget=100)
        for n in (5, 6, 8):
            two('chol_%d' % n, n, n, 'X = chol(A*trans(A));\n  Y = A;', [A(n, n)], assume=lambda k, I, n=n: [('>', I.A[i][i]) for i in range(n)],
                build=pattern('A', [' '.join('g%d%d' % (i, j) if j <= i else '0' for j in range(n)) for i in range(n)]))
        for n, m in ((9, 9), (20, 3), (3, 17), (1, 64), (17, 13)):
            if t == 'double' and n * m > 64:
                continue
            two('convlin_%dx%d' % (n, m), n, m, 'X = conv2(A+B, K);\n  Y = conv2(A, K) + conv2(B, K);', [A(n, m), B(n, m), M('K', t, 3, 3)])
            two('convfull_%dx%d' % (n, m), n, m, 'auto F = conv2_full(A, K);\n  for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) X[i][j] = F[i+1][j+1];\n  Y = conv2(A, K);' % (n, m), [A(n, m), M('K', t, 3, 3)])
            two('convtr_%dx%d' % (n, m), m, n, 'X = conv2(trans(A), trans(K));\n  Y = trans(conv2(A, K));', [A(n, m), M('K', t, 3, 3)])
            two('fulltr_%dx%d' % (n, m), m + 2, n + 2, 'X = conv2_full(trans(A), trans(K));\n  Y = trans(conv2_full(A, K));', [A(n, m), M('K', t, 3, 3)])
            if n > 2 and m > 2:
                two('convvalid_%dx%d' % (n, m), n - 2, m - 2, 'auto F = conv2_full(A, K);\n  for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) X[i][j] = F[i+2][j+2];\n  Y = conv2_valid(A, K);' % (n - 2, m - 2), [A(n, m), M('K', t, 3, 3)])
        for n, m in ((4, 4), (7, 5), (1, 30), (16, 2)):
            sc('meanshift_%dx%d' % (n, m), 'x = mean(A + s);\n  y = mean(A) + s;', [A(n, m), S('s', t)])
            sc('meantr_%dx%d' % (n, m), 'x = mean(trans(A));\n  y = mean(A);', [A(n, m)])
            sc('meansum_%dx%d' % (n, m), 'x = mean(A + B);\n  y = mean(A) + mean(B);', [A(n, m), B(n, m)])
            sc('varshift_%dx%d' % (n, m), 'x = var(A + s);\n  y = var(A);', [A(n, m), S('s', t)])
            sc('varscale_%dx%d' % (n, m), 'x = var(A*s);\n  y = s*s*var(A);', [A(n, m), S('s', t)])
            sc('vartr_%dx%d' % (n, m), 'x = var(trans(A));\n  y = var(A);', [A(n, m)])
        sc('meantr_1x300', 'x = mean(trans(A));\n  y = mean(A);', [A(1, 300)])
        for n in (4, 5, 8, 12):
            two('cattr_%d' % n, 2 * n, n, 'X = concatenate(trans(A), trans(B)).first;\n  Y = trans(concatenate(A, B).second);', [A(n, n), B(n, n)])
            two('cathv_%d' % n, n, 2 * n, 'X = concatenateH(A, B);\n  Y = trans(concatenateV(trans(A), trans(B)));', [A(n, n), B(n, n)])
            two('catmul_%d' % n, n, n + 3, 'X = A*concatenate(B, C);\n  Y = concatenate(A*B, A*C);', [A(n, n), B(n, 1), C(n, n + 2)])
            two('catsq_%d' % n, 2 * n, n, 'X = concatenateV(A, B)*C;\n  Y = concatenateV(A*C, B*C);', [A(n, n), B(n, n), C(n, n)])
        for n, m in ((5, 5), (8, 8), (3, 17), (17, 17), (1, 300)):
            if t == 'double' and n * m > 64:
                continue
            two('aself_add_%dx%d' % (n, m), n, m, 'X = A;\n  X = X + X;\n  Y = A*static_cast<%s>(2);' % t, [A(n, m)])
            two('aself_sub_%dx%d' % (n, m), n, m, 'X = A;\n  X = X - X;\n  Y = zeros<%s,%d,%d>();' % (t, n, m), [A(n, m)])
            two('aself_scal_%dx%d' % (n, m), n, m, 'X = A;\n  X = X * X[%d][%d];\n  const %s s = A[%d][%d];\n  Y = s * A;' % (n // 2, m // 2, t, n // 2, m // 2), [A(n, m)])
            two('aself_div_%dx%d' % (n, m), n, m, 'X = A;\n  X = X / X[%d][%d];\n  const %s s = A[%d][%d];\n  Y = A / s;' % (n // 2, m // 2, t, n // 2, m // 2), [A(n, m)])
            two('aself_adds_%dx%d' % (n, m), n, m, 'X = A;\n  X = X + X[%d][%d];\n  const %s s = A[%d][%d];\n  Y = s + A;' % (n // 2, m // 2, t, n // 2, m // 2), [A(n, m)])
            two('aself_subs_%dx%d' % (n, m), n, m, 'X = A;\n  X = X - X[%d][%d];\n  const %s s = A[%d][%d];\n  Y = A - s;' % (n // 2, m // 2, t, n // 2, m // 2), [A(n, m)])
            two('aself_tr_%dx%d' % (n, m), n, m, 'X = trans(trans(A));\n  Y = A;', [A(n, m)])
            two('incdec_%dx%d' % (n, m), n, m, 'X = A;\n  X = (X++)--;\n  Y = A;', [A(n, m)])
            if n > 1:
                two('swapswap_%dx%d' % (n, m), n, m, 'X = A; swap_rows(X, 1, %d); swap_cols(X, 0, %d); swap_rows(X, %d, 1); swap_cols(X, %d, 0);\n  Y = A;' % (n - 1, m - 1, n - 1, m - 1), [A(n, m)])
                two('swaptr_%dx%d' % (n, m), n, m, 'X = A; swap_cols(X, 1, %d);\n  auto R = trans(A); swap_rows(R, 1, %d); Y = trans(R);' % (m - 1, m - 1), [A(n, m)])
            if n == m:
                two('aself_trn_%d' % n, n, n, 'X = A;\n  X = trans(X);\n  Matrix<%s,%d,%d> P = A;\n  Y = trans(P);' % (t, n, n), [A(n, n)])
                if n <= 8:
                    two('aself_mul_%d' % n, n, n, 'X = A;\n  X = X * X;\n  Matrix<%s,%d,%d> P = A;\n  Y = A * P;' % (t, n, n), [A(n, n)])
                    two('aself_mull_%d' % n, n, n, 'X = A;\n  X = X * B;\n  Y = A * B;', [A(n, n), B(n, n)])
                    two('aself_mulr_%d' % n, n, n, 'X = A;\n  X = B * X;\n  Y = B * A;', [A(n, n), B(n, n)])
        for f in ('perm5', 'mid5', 'dense6'):
            n = len(FAM[f])
            sc('laplace_' + f, 'x = 0;\n  for (std::size_t j = 0; j < %d; j++) x += (j %% 2 ? -1 : 1)*A[2][j]*det(getminor(A, 2, j));\n  y = det(A);' % n, [A(n, n)], build=pattern('A', FAM[f]), budget=100)
    t = 'unsigned'
    for n in (1, 2, 3):
        ms = [M('A', t, n, n), M('B', t, n, n)]
        o = [M('X', t, n, n), M('Y', t, n, n)]
        out.append(law('utrprod_%d' % n, t, 'X = trans(A*B);\n  Y = trans(B)*trans(A);', ms, o, [('X', 'Y')]))
        out.append(law('uaddsub_%d' % n, t, 'X = (A+B)-B;\n  Y = A;', ms, o, [('X', 'Y')]))
        out.append(law('upow_%d' % n, t, 'X = pow(A, 3u);\n  Y = A*A*A;', ms[:1], o, [('X', 'Y')]))
    return merging(out)
