"""Specification functions (defined by axioms), loop templates and contracts of helper functions."""
import z3
from core import *
import loops, models
from models import ws, lc, uc, lower, upper, trimlen, between
SI = seqof(I).S
QI = seqof(I)
SLEN, AT = QI.len, QI.at
P = "rphtml::parser::"

mism = z3.Function("mism", SI, SI, I)        # first index where two sequences differ
mismi = z3.Function("mismi", SI, SI, I)      # ... ignoring ASCII case
firstnon = z3.Function("firstnon", SI, I)    # first index that is not ASCII whitespace (length if none)
lmis = z3.Function("lmis", SI, SI, I, I)     # 1 + last j < len(a) with a[j] != b[off+j] (0 if none)
lmisi = z3.Function("lmisi", SI, SI, I, I)
linef = z3.Function("linef", SI, I, I)       # line after k characters (starting at 1)
colf = z3.Function("colf", SI, I, I)
mini = z3.Function("mini", SI, I, SI)        # minified prefix of length k
allws = z3.Function("allws", SI, B)          # only ASCII whitespace
anynon = z3.Function("anynon", SI, B)        # some character is not ASCII whitespace
def axioms():
    s, a, b = z3.Consts("s a b", SI); j, o = z3.Ints("j o")
    F = lambda vs, body, pats: z3.ForAll(vs, body, patterns=pats)
    w = lambda x: zb(ws(x))
    A = []
    A.append(F([s], z3.And(trimlen(s) >= 0, trimlen(s) <= SLEN(s), z3.Implies(trimlen(s) > 0, z3.Not(w(AT(s, trimlen(s) - 1))))), [trimlen(s)]))
    A.append(F([s, j], z3.Implies(z3.And(trimlen(s) <= j, j < SLEN(s)), w(AT(s, j))), [z3.MultiPattern(trimlen(s), AT(s, j))]))
    A.append(F([s], z3.And(firstnon(s) >= 0, firstnon(s) <= SLEN(s), z3.Implies(firstnon(s) < SLEN(s), z3.Not(w(AT(s, firstnon(s)))))), [firstnon(s)]))
    A.append(F([s, j], z3.Implies(z3.And(0 <= j, j < firstnon(s)), w(AT(s, j))), [z3.MultiPattern(firstnon(s), AT(s, j))]))
    for m, f in ((mism, lambda x: x), (mismi, lc)):
        A.append(F([a, b], z3.And(m(a, b) >= 0, m(a, b) <= SLEN(a), m(a, b) <= SLEN(b), z3.Implies(z3.And(m(a, b) < SLEN(a), m(a, b) < SLEN(b)), f(AT(a, m(a, b))) != f(AT(b, m(a, b))))), [m(a, b)]))
        A.append(F([a, b, j], z3.Implies(z3.And(0 <= j, j < m(a, b)), f(AT(a, j)) == f(AT(b, j))), [z3.MultiPattern(m(a, b), AT(a, j)), z3.MultiPattern(m(a, b), AT(b, j))]))
    c = z3.Int("c")
    A.append(allws(QI.empty))
    A.append(F([s, c], allws(QI.snoc(s, c)) == z3.And(allws(s), w(c)), [allws(QI.snoc(s, c))]))
    A.append(F([a, b], allws(QI.app(a, b)) == z3.And(allws(a), allws(b)), [allws(QI.app(a, b))]))
    A.append(F([s], allws(s) == (firstnon(s) >= SLEN(s)), [allws(s)]))
    A.append(F([s], anynon(s) == z3.Not(allws(s)), [anynon(s)]))
    # extensionality
    A.append(F([a, b], (a == b) == z3.And(SLEN(a) == SLEN(b), mism(a, b) >= SLEN(a)), [mism(a, b)]))
    A.append(F([a, b], (lower(a) == lower(b)) == z3.And(SLEN(a) == SLEN(b), mismi(a, b) >= SLEN(a)), [mismi(a, b)]))
    for m, f in ((lmis, lambda x: x), (lmisi, lc)):
        A.append(F([a, b, o], z3.And(m(a, b, o) >= 0, m(a, b, o) <= SLEN(a), z3.Implies(m(a, b, o) > 0, f(AT(a, m(a, b, o) - 1)) != f(AT(b, o + m(a, b, o) - 1)))), [m(a, b, o)]))
        A.append(F([a, b, o, j], z3.Implies(z3.And(m(a, b, o) <= j, j < SLEN(a)), f(AT(a, j)) == f(AT(b, o + j))), [z3.MultiPattern(m(a, b, o), AT(a, j))]))
    return A
def line_step(s, k):
    """definition of linef/colf at k+1"""
    c = AT(s, k); prevcr = z3.And(k > 0, AT(s, k - 1) == 13)
    nl = z3.Or(c == 13, z3.And(c == 10, z3.Not(prevcr)))
    return [linef(s, k + 1) == linef(s, k) + z3.If(nl, 1, 0), colf(s, k + 1) == z3.If(nl, 0, z3.If(c == 10, colf(s, k), colf(s, k) + 1)), linef(s, z3.IntVal(0)) == 1, colf(s, z3.IntVal(0)) == 0]
def mini_step(s, k):
    c = AT(s, k)
    skip = z3.And(zb(ws(c)), k > 0, zb(ws(AT(s, k - 1))))
    return [mini(s, k + 1) == z3.If(skip, mini(s, k), QI.snoc(mini(s, k), c)), mini(s, z3.IntVal(0)) == QI.empty]

lowp = z3.Function("lowp", SI, I, SI)        # lowercased prefix of length k
encp = z3.Function("encp", SI, I, SI)        # prefix of length k with '<' '>' '&' replaced by their entities
enc = z3.Function("encode_entities", SI, SI)
minif = z3.Function("minify", SI, SI)        # the whole sequence
def push(t, text):
    for ch in text: t = QI.snoc(t, z3.IntVal(ord(ch)))
    return t
def low_step(s, k): return [lowp(s, k + 1) == QI.snoc(lowp(s, k), lc(AT(s, k))), lowp(s, z3.IntVal(0)) == QI.empty, lowp(s, SLEN(s)) == lower(s)]
def enc_step(s, k):
    c = AT(s, k); e = encp(s, k); r = QI.snoc(e, c)
    for x, w in models.ENT.items(): r = z3.If(c == x, push(e, w), r)
    return [encp(s, k + 1) == r, encp(s, z3.IntVal(0)) == QI.empty, encp(s, SLEN(s)) == enc(s)]
def copy_step(s, k): return [QI.sub(s, z3.IntVal(0), k + 1) == QI.snoc(QI.sub(s, z3.IntVal(0), k), AT(s, k)), QI.sub(s, z3.IntVal(0), z3.IntVal(0)) == QI.empty, QI.sub(s, z3.IntVal(0), SLEN(s)) == s]
def minif_step(s, k): return mini_step(s, k) + [mini(s, SLEN(s)) == minif(s)]
ACC = [("low", lowp, low_step), ("enc", encp, enc_step), ("mini", mini, minif_step), ("copy", lambda s, k: QI.sub(s, z3.IntVal(0), k), copy_step)]
def app_axioms():
    """concatenation is associative and has the empty sequence as its unit"""
    x, y, z = z3.Consts("x y z", SI); c = z3.Int("c"); F = lambda vs, b, p: z3.ForAll(vs, b, patterns=[p])
    return [F([x, y, z], QI.app(x, QI.app(y, z)) == QI.app(QI.app(x, y), z), QI.app(x, QI.app(y, z))), F([x, y, c], QI.app(x, QI.snoc(y, c)) == QI.snoc(QI.app(x, y), c), QI.app(x, QI.snoc(y, c))),
        F([x], QI.app(x, QI.empty) == x, QI.app(x, QI.empty)), F([x], QI.app(QI.empty, x) == x, QI.app(QI.empty, x))]
# ---------------------------------------------------------------- loop templates
def frame_seqs(ex, st, uid):
    """char sequences visible in a frame"""
    out = {}
    f = st.frame(uid)
    def addv(v):
        if isinstance(v, IterV): v = v.seq
        if isinstance(v, SeqV) and v.ety is not None and ex.ty[v.ety]["k"] == "char" and v.segs and any(k == "s" for k, _ in v.segs):
            t = ex.term(st, v); out[t.get_id()] = t
    for l, v in list(f.loc.items()):
        n = 0
        if isinstance(v, Agg) and v.f and isinstance(v.f[0], IterV):
            for x in v.f[1:]:
                if isinstance(x, IterV): addv(x)
            v = v.f[0]
        while isinstance(v, Ptr) and n < 3:
            try: v = ex.load(st, v)
            except Exception: v = None
            n += 1
        addv(v)
    return list(out.values())[:8]
def leaves(ex, s0, W):
    ints = loops.int_leaves(ex, s0, W)
    bools = [(l, (lambda s, l=l: loops.read(s, l))) for l in sorted(W, key=repr) if isinstance(loops.read(s0, l), bool) or (isz(loops.read(s0, l)) and z3.is_bool(loops.read(s0, l)))]
    seqs = [(l, (lambda s, l=l: ex.term(s, loops.read(s, l)))) for l in sorted(W, key=repr) if isinstance(loops.read(s0, l), SeqV) and loops.read(s0, l).ety is not None and ex.ty[loops.read(s0, l).ety]["k"] == "char"]
    return ints, bools, seqs
def t_trim(ex, s0, W, uid):
    ints, bools, _ = leaves(ex, s0, W); S = frame_seqs(ex, s0, uid); C = []
    for t in S:
        for _, g in ints:
            C.append(("trim", lambda s, g=g, t=t: trimlen(t) <= zi(g(s))))
            C.append(("first", lambda s, g=g, t=t: firstnon(t) >= zi(g(s))))
    for _, b in bools:
        b0 = b(s0)
        C.append(("keep", lambda s, b=b, b0=b0: eq(b(s), b0)))
    return C
def t_mism(ex, s0, W, uid):
    ints, bools, _ = leaves(ex, s0, W); S = frame_seqs(ex, s0, uid); C = []
    for i, t in enumerate(S):
        for u in S[i + 1:]:
            for _, g in ints:
                C.append(("mism", lambda s, g=g, t=t, u=u: zi(g(s)) <= mism(t, u)))
                C.append(("mismi", lambda s, g=g, t=t, u=u: zi(g(s)) <= mismi(t, u)))
                for _, b in bools: C.append(("same", lambda s, g=g, b=b, t=t, u=u: zb(b(s)) == (zi(g(s)) <= mism(t, u))))
    return C
def t_lmis(ex, s0, W, uid):
    ints, bools, _ = leaves(ex, s0, W); S = frame_seqs(ex, s0, uid); C = []
    conds = list({v.get_id(): v for l, v in s0.frame(uid).loc.items() if isz(v) and z3.is_bool(v) and z3.is_const(v) and not any(w[0] == ("L", uid, l) for w in W)}.values())[:4]
    for t in S:
        for u in S:
            if t.eq(u): continue
            for _, g in ints:
                for _, h in ints:
                    if g is h: continue
                    off = z3.simplify(zi(h(s0)) - zi(g(s0)))
                    C.append(("lmis", lambda s, g=g, t=t, u=u, off=off: lmis(t, u, off) <= zi(g(s))))
                    for cb in conds: C.append(("lmis?", lambda s, g=g, t=t, u=u, off=off, cb=cb: z3.If(cb, lmis(t, u, off), lmisi(t, u, off)) <= zi(g(s))))
                    C.append(("lmisi", lambda s, g=g, t=t, u=u, off=off: lmisi(t, u, off) <= zi(g(s))))
    return C
def iters(ex, st, uid):
    out = []
    for l, v in st.frame(uid).loc.items():
        if isinstance(v, IterV): out.append((l, ()))
        elif isinstance(v, Agg) and v.f and isinstance(v.f[0], IterV): out.append((l, (0,)))
    return out
def t_line(ex, s0, W, uid):
    ints, bools, _ = leaves(ex, s0, W); C = []
    lims = [v for l, v in s0.frame(uid).loc.items() if isz(v) and z3.is_int(v) and not any(w[0] == ("L", uid, l) for w in W)]
    for l, p in iters(ex, s0, uid):
        if (("L", uid, l), p) not in W and not any(w[0] == ("L", uid, l) for w in W): continue
        it = lambda s, l=l, p=p: loops.getp(s.frame(uid).loc[l], p)
        sq = it(s0).seq
        if it(s0).rev or len(sq.segs) != 1 or sq.segs[0][0] != "s" or sq.segs[0][1].sort() != SI: continue
        t = sq.segs[0][1]
        for lim in lims[:3] + [None]:
            k = (lambda s, it=it, lim=lim: zi(it(s).lo) if lim is None else z3.If(zi(it(s).lo) <= lim + 1, zi(it(s).lo), lim + 1))
            C.append(("fact", lambda s, it=it, t=t: z3.And(*line_step(t, zi(it(s).lo)))))
            if lim is not None: C.append(("limit", lambda s, it=it, lim=lim: zi(it(s).lo) <= lim + 1))
            for _, b in bools:
                for ch in (10, 13):
                    C.append(("lastis", lambda s, b=b, k=k, t=t, ch=ch: zb(b(s)) == z3.And(k(s) > 0, AT(t, k(s) - 1) == ch)))
                    C.append(("lastisnot", lambda s, b=b, k=k, t=t, ch=ch: zb(b(s)) == z3.Not(z3.And(k(s) > 0, AT(t, k(s) - 1) == ch))))
            for _, g in ints:
                C.append(("line", lambda s, g=g, k=k, t=t: zi(g(s)) == linef(t, k(s))))
                C.append(("col", lambda s, g=g, k=k, t=t: zi(g(s)) == colf(t, k(s))))
                C.append(("last", lambda s, g=g, k=k, t=t: zi(g(s)) == z3.If(k(s) > 0, AT(t, k(s) - 1), 0)))
    return C
def t_mini(ex, s0, W, uid):
    ints, bools, seqs = leaves(ex, s0, W); C = []
    for l, p in iters(ex, s0, uid):
        if not any(w[0] == ("L", uid, l) for w in W): continue
        it = lambda s, l=l, p=p: loops.getp(s.frame(uid).loc[l], p)
        sq = it(s0).seq
        if it(s0).rev or len(sq.segs) != 1 or sq.segs[0][0] != "s" or sq.segs[0][1].sort() != SI: continue
        t = sq.segs[0][1]
        C.append(("fact", lambda s, it=it, t=t: z3.And(*mini_step(t, zi(it(s).lo)))))
        for _, b in bools: C.append(("prevws", lambda s, b=b, it=it, t=t: zb(b(s)) == z3.And(zi(it(s).lo) > 0, zb(ws(AT(t, zi(it(s).lo) - 1))))))
        for _, v in seqs: C.append(("mini", lambda s, v=v, it=it, t=t: v(s) == mini(t, zi(it(s).lo))))
    return C
def counters(ex, s0, W, uid):
    """loop counters that start at 0: positions of forward iterators and integers"""
    out = []
    for l, p in iters(ex, s0, uid):
        if any(w[0] == ("L", uid, l) for w in W):
            it = lambda s, l=l, p=p: loops.getp(s.frame(uid).loc[l], p)
            if not it(s0).rev and simp(it(s0).lo) == 0: out.append((lambda s, it=it: zi(it(s).lo), it(s0).seq))
    for loc in sorted(W, key=repr):
        v = loops.read(s0, loc)
        if not isinstance(v, bool) and isinstance(v, int) and v == 0: out.append((lambda s, loc=loc: zi(loops.read(s, loc)), None))
    return out[:4]
def t_acc(ex, s0, W, uid):
    """an accumulator is what it was followed by a function of the prefix read so far"""
    _, bools, seqs = leaves(ex, s0, W); C = []
    if not seqs: return C
    for k, sq in counters(ex, s0, W, uid):
        S = [ex.term(s0, sq)] if sq is not None and sq.ety is not None and ex.ty[sq.ety]["k"] == "char" else ([] if sq is not None else frame_seqs(ex, s0, uid))
        for t in S[:4]:
            if sq is None: C.append(("bound", lambda s, k=k, t=t: k(s) <= SLEN(t)))
            for nm, F, step in ACC:
                C.append(("fact", lambda s, k=k, t=t, step=step: z3.And(*step(t, k(s)))))
                for _, v in seqs:
                    v0 = v(s0)
                    C.append((nm, lambda s, v=v, v0=v0, k=k, t=t, F=F: v(s) == (F(t, k(s)) if v0.eq(QI.empty) else QI.app(v0, F(t, k(s))))))
            for _, b in bools: C.append(("prevws", lambda s, b=b, k=k, t=t: zb(b(s)) == z3.And(k(s) > 0, zb(ws(AT(t, k(s) - 1))))))
    return C
ALL = [t_trim, t_mism, t_lmis, t_line, t_mini, t_acc]

# ---------------------------------------------------------------- contracts of helpers (proved by the helper units)
def sym_len(ex, st, v):
    return not all(k == "e" for k, _ in v.segs) and isz(simp(ex.seq_len(st, v)))
WORDS = ("pre", "html", "title", "textarea", "script", "style", "id")
def word_eq(ex, st, x, w, case):
    """is_equal_chars with a constant; case: None, or the variant of NameCase (0 upper, 1 lower)"""
    t = x.segs[0][1]; f = (lambda a, b: eq(a, b)) if case is None else (lambda a, b: Or(eq(a, b), eq((uc if case == 0 else lc)(a), b)))
    return And(eq(simp(zi(ex.seq_len(st, x))), len(w)), *[f(simp(zi(sat(t, z3.IntVal(i)))), ord(c)) for i, c in enumerate(w)])
def c_is_equal_chars(ex, st, a, t):
    x, y = models.seqarg(ex, st, a[0]), models.seqarg(ex, st, a[1])
    c = models.val(ex, st, a[2])
    if isinstance(c, Agg) and len(x.segs) == 1 and x.segs[0][0] == "s" and y.segs and all(k == "e" and isinstance(e, int) for k, e in y.segs) and not any(z3.is_app(x.segs[0][1]) and x.segs[0][1].decl().name() == m for m in models.MAPS):
        w = "".join(chr(e) for _, e in y.segs)
        cs = None if c.v == 0 else c.f[0].v if isinstance(c.f[0], Agg) else -1
        if w in WORDS and cs != -1: return [(st, word_eq(ex, st, x, w, cs))]
    if not (sym_len(ex, st, x) and sym_len(ex, st, y)): return None
    if isinstance(c, Agg) and c.v == 0: return [(st, ex.term(st, x) == ex.term(st, y))]
    return None
def c_ignore_case(ex, st, a, t):
    x, y = models.seqarg(ex, st, a[0]), models.seqarg(ex, st, a[1])
    if not (sym_len(ex, st, x) and sym_len(ex, st, y)): return None
    tx, ty = ex.term(st, x), ex.term(st, y)
    e = lower(tx) == lower(ty)
    return [(st, Agg(t["dt"], 0, (e, z3.And(e, tx == ty))))]
def c_trim_end(ex, st, a, t):
    x = models.seqarg(ex, st, a[0])
    if not sym_len(ex, st, x): return None
    tx = ex.term(st, x); k = trimlen(tx)
    addfact(st, z3.And(k >= 0, k <= slen(tx)))
    return [(st, Ptr(("V", SeqV(x.ety, [("s", ssub(tx, z3.IntVal(0), k))]))))]
HELPERS = {P + "is_equal_chars": c_is_equal_chars, P + "is_equal_chars_ignore_case": c_ignore_case, P + "chars_trim_end": c_trim_end}
