"""Closing loops: carried values become canonical fixpoint terms.

Every loop is summarised without iterating it: unchanged values are eliminated,
counters get a closed form in the iteration number, accumulators are split into
sums, loop-invariant decisions are moved out, appends become list terms, everything
else becomes a `fix` term that is independent of variable names and statement order.
"""
from .terms import *
from . import terms as T
from .heap import *

ROUNDS = 3
UNSWITCH = 4


class Item:
    __slots__ = ("key", "mu", "init", "next", "orig")

    def __init__(self, key, mu, init, orig=None):
        self.key, self.mu, self.init, self.orig = key, mu, init, orig
        self.next = None


def simp(t, pc):
    """t under the assumption pc (decision structure only)"""
    if pc == 1:
        return t
    if t.op == "sel":
        v = bvar(t.args[0])
        hi, lo = b_and(pc, v), b_and(pc, bnot(v))
        if lo == 0:
            return simp(t.args[1], pc)
        if hi == 0:
            return simp(t.args[2], pc)
        return ite(v, simp(t.args[1], hi), simp(t.args[2], lo))
    if t.op == "bool" and t.args[0] > 1:
        f = t.args[0]
        if b_and(pc, f) == 0:
            return FALSE
        if b_and(pc, bnot(f)) == 0:
            return TRUE
    return t


def restrict_values(t, atom, val):
    """t where atom has the truth value val, also inside stored values and arguments"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "sel":
            if t.args[0] is atom:
                r = go(t.args[1] if val else t.args[2])
            else:
                r = ite(bvar(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t.op == "bool":
            r = mkbool(T._brestrict(t.args[0], atom, val))
        elif not t.args or t.op in T.BINDERS or t is atom:
            r = t
        else:
            na = tuple(goa(a) for a in t.args)
            r = t if na == t.args else T.rebuild(t.op, na)
        memo[t] = r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(x) for x in a)
        return a

    return go(t)


def literals(f):
    """the literals of a conjunction, None if f is something else"""
    out = []
    while f > 1:
        a, hi, lo = T._bn[f]
        if lo == 0:
            out.append((a, True))
            f = hi
        elif hi == 0:
            out.append((a, False))
            f = lo
        else:
            return None
    return out if f == 1 else None


def simp_deep(t, pc, want=None):
    """simp, and if that does not give `want`, the same inside stored values"""
    r = simp(t, pc)
    if r is want:
        return r
    ls = literals(pc)
    if not ls or len(ls) > 3:
        return r
    d = r
    for a, v in ls:
        d = restrict_values(d, a, v)
    return d if want is None or d is want else r


_dep = {}


def deps(t, L):
    """mus and iv of loop L inside t"""
    k = (t, L)
    r = _dep.get(k)
    if r is None:
        r = frozenset(x for x in walk(t) if x.op in ("mu", "iv") and x.args[0] == L)
        _dep[k] = r
    return r


def bdeps(n, L):
    return deps(mk("bool", n), L)


_bvh = {}


def bvheight(t):
    r = _bvh.get(t)
    if r is None:
        r = max((x.args[0] for x in walk(t) if x.op == "bv"), default=0)
        _bvh[t] = r
    return r


def sb(t, m, memo=None):
    if not m:
        return t
    return subst(t, m.get, memo)


def sbb(n, m):
    if not m or n <= 1:
        return n
    return subst_bdd(n, m.get)


NOFORM = ("st", "app", "base", "init", "val", "comp", "lst", "tup", "bool")


def close_loop(items, iv, N, H, B, L):
    exits = {}
    work = {}  # mu -> (init, next)
    for i in items:
        work[i.mu] = (i.init, i.next)
    kept = {}
    for mu in list(work):
        r = one_place(mu, work, H, B, L)
        if r is not None:
            P, nu, m, nxt, same = r
            init = work.pop(mu)[0]
            for f in (same.get, m):
                for k in work:
                    if k not in same:
                        work[k] = (work[k][0], sb_read(work[k][1], f))
                H, B = sbb_read(H, f), sbb_read(B, f)
            work[nu] = (read_chain(init, P, pure_deref), sb_read(nxt.args[2], m))
            kept[mu] = (init, P, nu)
    whole = set()
    for mu in work:
        init, nxt = work[mu]
        if init is not UNDEF and init.op == "val" and nxt.op == "val":
            # an array replaced as a whole each time
            whole.add(mu)
            work[mu] = (init.args[0], nxt.args[0])
    if whole:
        def f(t):
            return t.args[0] if t.op == "ld" and t.args[0] in whole and not t.args[1].args else None

        for k in work:
            if work[k][1] is not UNDEF:
                work[k] = (work[k][0], subst(work[k][1], f))
        H, B = sbb_read(H, f), sbb_read(B, f)
    head = {}  # mu -> closed form at the loop head
    comb = {}  # mu -> closed exit combination (term over other mus)
    linear = {}  # mu -> (init, delta)
    derived = {}  # mu -> f(iv)
    changed = True
    while changed:
        changed = False
        for mu in list(work):
            if mu in head:
                continue
            init, nxt = work[mu]
            if nxt is mu or (nxt is init and not deps(init, L)):
                # unchanged, or always reset to what it was
                head[mu] = init
                comb[mu] = init
                del work[mu]
                m = {mu: init}
                for k in work:
                    work[k] = (work[k][0], sb(work[k][1], m))
                H, B = sbb(H, m), sbb(B, m)
                changed = True
                break
            if mu in linear:
                continue
            if init is UNDEF or mu not in _all_mus(work, H, B, L):
                continue
            nb = simp(nxt, bnot(B)) if B else nxt
            if nb.op not in NOFORM and iv in deps(nb, L):
                # next = f(iv + 1) and init = f(0): a value recomputed from
                # the position, whatever the statement order
                if all(x is iv for x in deps(nb, L)):
                    cf = sb(nb, {iv: sub(iv, num(1))})
                    if sb(cf, {iv: num(0)}) is init:
                        derived[mu] = cf
                        linear[mu] = None
                        m = {mu: cf}
                        for k in work:
                            work[k] = (work[k][0], sb(work[k][1], m))
                        H, B = sbb(H, m), sbb(B, m)
                        changed = True
                        break
            if nb.op in ("st", "app", "base", "init", "val", "comp") or nxt.op in (
                "st", "app", "base", "init", "val", "comp"):
                continue
            if not is_num(init) and init.op in ("c", "tup", "lst", "bool"):
                continue
            if not _numeric(nb, mu):
                continue
            d = sub(nb, mu)
            if not deps(d, L) and not (d.op == "sel" and False):
                cf = add(init, mul(d, iv))
                linear[mu] = (init, d)
                m = {mu: cf}
                for k in work:
                    work[k] = (work[k][0], sb(work[k][1], m))
                H, B = sbb(H, m), sbb(B, m)
                changed = True
                break
    # bounded while
    N, H = bound(N, H, iv, L)
    # accumulators
    acc = {}
    extra = {}
    for mu in list(work):
        if mu in linear:
            continue
        init, nxt = work[mu]
        if init is UNDEF or nxt.op in ("st", "app", "base", "init", "val", "comp"):
            continue
        if not _numeric(nxt, mu) or init.op in ("c", "tup", "lst", "bool"):
            continue
        if mu not in deps(nxt, L):
            continue
        d = sub(nxt, mu)
        dd = deps(d, L)
        if any(x.op == "mu" for x in dd):
            continue
        parts = []
        for m_, c in sorted(poly_of(d).items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
            inv = from_poly({tuple((a, e) for a, e in m_ if not deps(a, L)): c})
            var = from_poly({tuple((a, e) for a, e in m_ if deps(a, L)): T.Fraction(1)})
            parts.append((inv, var))
        tot = init
        for inv, var in parts:
            if not deps(var, L):
                # constant addend
                k = mk("mu", L, ("n",), True)
                extra[k] = (num(0), add(k, num(1)))
                linear[k] = (num(0), num(1))
            else:
                k = mk("mu", L, ("s", var.id), is_int(var))
                extra[k] = (num(0), add(k, var))
            tot = add(tot, mul(inv if deps(var, L) else mul(inv, var), k))
        acc[mu] = tot
    for mu in acc:
        del work[mu]
    work.update(extra)
    if acc:
        for k in work:
            if k not in extra:
                work[k] = (work[k][0], sb(work[k][1], acc))
        H, B = sbb(H, acc), sbb(B, acc)
    if simple(N, H, B):
        made = {i.mu: i.orig for i in items if i.key[0] == "heap" and i.orig is not None}
        for mu in work:
            init, nxt = work[mu]
            # every element of an array given one value
            if (
                mu not in acc and mu not in linear and nxt.op == "st" and nxt.args[0] is mu
                and nxt.args[1].args == (iv,)
                and isinstance(nxt.args[2], Term) and not deps(nxt.args[2], L)
                and length_of(made.get(mu, init)) is N
            ):
                comb[mu] = mk("val", nxt.args[2])
    out = {}

    def exit_of(mu):
        r = out.get(mu)
        if r is None:
            r = out[mu] = _exit(mu)
        return r

    def _exit(mu):
        if mu in comb:
            return comb[mu]
        if mu in acc:
            m = {x: exit_of(x) for x in deps(acc[mu], L) if x.op == "mu"}
            return sb(acc[mu], m)
        init, nxt = work[mu]
        if mu in derived:
            cf = derived[mu]
            if simple(N, H, B):
                return sb(cf, {iv: N})
            if B == 0:
                return sb(cf, {iv: trip(iv, N, H, B, work, L)})
        elif mu in linear:
            i0, d = linear[mu]
            if simple(N, H, B):
                return add(i0, mul(d, N))
            cf = add(i0, mul(d, iv))
            if nxt is add(cf, d) or (B == 0):
                return add(i0, mul(d, trip(iv, N, H, B, work, L)))
        return unswitched(mu, work, iv, N, H, B, L)

    for i in items:
        if i.mu in kept:
            init, P, nu = kept[i.mu]
            v = exit_of(nu)
            exits[i.mu] = store(init, P, v) if v is not UNDEF else UNDEF
        else:
            v = exit_of(i.mu)
            exits[i.mu] = mk("val", v) if i.mu in whole and v is not UNDEF else v
    return exits, N


def sb_read(t, f):
    return t if t is UNDEF else subst(t, f)


def sbb_read(n, f):
    return subst_bdd(n, f) if n > 1 else n


def one_place(mu, work, H, B, L):
    """a loop that touches one fixed place of a chain only: the place as a variable of its own"""
    init, nxt = work[mu]
    if init is UNDEF or nxt.op != "st" or nxt.args[0] is not mu:
        return None
    same = {k: i0 for k, (i0, n0) in work.items() if n0 is k and i0 is not UNDEF}
    if same:
        nxt = subst(nxt, same.get)
        if nxt.op != "st" or nxt.args[0] is not mu:
            return None
        work = {k: (i0, subst(n0, same.get) if n0 is not UNDEF and k not in same else n0) for k, (i0, n0) in work.items()}
        H, B = [subst_bdd(b, same.get) if b > 1 else b for b in (H, B)]
    P = nxt.args[1].args
    if not P or any(isinstance(q, Term) and (deps(q, L) or q.op == "slice") for q in P):
        return None
    nu = mk("mu", L, ("p", mu.args[1]), False)

    def f(t):
        if t.op == "ld" and t.args[0] is mu and t.args[1].args[: len(P)] == P:
            r = t.args[1].args[len(P):]
            if not r:
                return nu
            m = {x: subst(x, f) for x in r if isinstance(x, Term)}
            return pure_deref(nu, tuple(m.get(x, x) if isinstance(x, Term) else x for x in r))
        return None

    v = subst(nxt.args[2], f)
    if v.op in ("st", "app") or mu in deps(v, L):
        return None
    for k, (i0, n0) in work.items():
        if k is not mu and n0 is not UNDEF and mu in deps(n0, L) and mu in deps(subst(n0, f), L):
            return None
    for b in (H, B):
        if b > 1 and mu in bdeps(subst_bdd(b, f), L):
            return None
    return P, nu, f, nxt, same


def length_of(chain):
    """the size of the one-dimensional array a chain of stores goes back to"""
    for _ in range(50):
        if chain.op in ("st", "app"):
            chain = chain.args[0]
        elif chain.op in ("mu", "muk", "mu0", "fix"):
            nxt = next((a for a in chain.args if isinstance(a, Term) and a.op not in ("num", "bool")), None)
            if nxt is None:
                return None
            chain = nxt
        elif chain.op == "init" and str(chain.args[0]).startswith("numpy."):
            d = {q[0]: q[1] for q in chain.args[1] if isinstance(q, tuple) and len(q) == 2}
            n = d.get("shape")
            return n if isinstance(n, Term) and n.op != "tup" else (
                n.args[0] if isinstance(n, Term) and len(n.args) == 1 else None
            )
        else:
            return None
    return None


def simple(N, H, B):
    return N is not None and H == 1 and B == 0


def _all_mus(work, H, B, L):
    r = set()
    for k, (i, n) in work.items():
        r |= deps(n, L)
    r |= bdeps(H, L) | bdeps(B, L)
    return r


def _numeric(t, mu):
    """t may be an arithmetic update of mu"""
    if t is mu:
        return True
    if t.op == "poly":
        return any(m == ((mu, 1),) for m, c in t.args[0])
    if t.op == "sel":
        return _numeric(t.args[1], mu) and _numeric(t.args[2], mu)
    return False


def trip(iv, N, H, B, work, L):
    """number of executed iterations of a loop without a known bound"""
    k = mk("mu", L, ("t",), True)
    w = dict(work)
    w[k] = (num(0), add(iv, num(1)))
    return unswitched(k, w, iv, N, H, B, L)


def closure(mu, work, N, H, B, L):
    seen, todo = [], [mu]
    ctrl = [x for x in sorted(bdeps(H, L) | bdeps(B, L), key=lambda t: t.id) if x.op == "mu"]
    todo += ctrl
    while todo:
        x = todo.pop()
        if x in seen or x not in work:
            continue
        seen.append(x)
        todo += [y for y in deps(work[x][1], L) if y.op == "mu"]
    return seen


def inv_atoms(t, L, out, seen):
    """loop-invariant decision atoms used at the decision level of t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "bool":
            for a in bsupport(x.args[0]):
                if not deps(a, L):
                    out.add(a)
                else:
                    stack.append(a)
            continue
        if x.op == "sel":
            if not deps(x.args[0], L):
                out.add(x.args[0])
            stack.extend(x.args)
            continue
        if x.op in T.BINDERS:
            continue
        if not deps(x, L):
            continue
        stack.extend(x.args)


def unswitched(mu, work, iv, N, H, B, L, left=UNSWITCH):
    sl = closure(mu, work, N, H, B, L)
    atoms, seen = set(), set()
    if left:
        for x in sl:
            inv_atoms(work[x][1], L, atoms, seen)
        inv_atoms(mk("bool", H), L, atoms, seen)
        inv_atoms(mk("bool", B), L, atoms, seen)
    atoms = sorted((a for a in atoms if a.op != "bool"), key=lambda t: t.id)
    if left and atoms:
        a = atoms[0]
        res = []
        for v in (True, False):
            w = {x: (work[x][0], restrict(work[x][1], a, v)) for x in sl}
            h = T._brestrict(H, a, v) if False else truth(restrict(mk("bool", H), a, v))
            b = truth(restrict(mk("bool", B), a, v))
            n, h = bound(N, h, iv, L)
            # the restriction may have made values invariant
            ch = True
            gone = {}
            while ch:
                ch = False
                for x in list(w):
                    if w[x][1] is x:
                        m = {x: w[x][0]}
                        gone[x] = w[x][0]
                        del w[x]
                        for k in w:
                            w[k] = (w[k][0], sb(w[k][1], m))
                        h, b = sbb(h, m), sbb(b, m)
                        ch = True
                        break
            if mu in gone:
                res.append(gone[mu])
            elif h == 0:
                res.append(w[mu][0])
            else:
                res.append(unswitched(mu, w, iv, n, h, b, L, left - 1))
        r0, r1 = res
        if r0 is UNDEF or r1 is UNDEF:
            return r0 if r1 is UNDEF else r1
        return ite(bvar(a), r0, r1)
    # break without effect on this slice: part of the loop condition
    if B:
        if all(simp_deep(work[x][1], B, x) is x for x in sl):
            work = {x: (work[x][0], simp_deep(work[x][1], bnot(B))) for x in sl}
            H = b_and(H, bnot(B))
            B = 0
            N, H = bound(N, H, iv, L)
    init, nxt = work[mu]
    # lists built by appending
    if simple(N, H, B) and nxt.op == "app" and nxt.args[0] is mu:
        dd = deps(nxt.args[1], L) | deps(nxt.args[2], L)
        if not any(x.op == "mu" for x in dd):
            h = 1 + max(bvheight(nxt.args[1]), bvheight(nxt.args[2]))
            bv = mk("bv", h)
            m = {iv: bv}
            c = mk("comp", N, bv, sb(nxt.args[1], m), sb(nxt.args[2], m))
            if init.op == "init" and init.args[0] == "list" and not init.args[1]:
                return c
            return mk("cat", init, c)
    ts = [work[x][1] for x in sl] + [mk("bool", H), mk("bool", B)]
    h = 1 + max(bvheight(t) for t in ts)
    bv = mk("bv", h)
    col = {x: mk("mu0", bool(x.args[2]), work[x][0], h) for x in sl}
    hb, bb = mk("bool", H), mk("bool", B)
    for r in range(ROUNDS):
        m = dict(col)
        m[iv] = bv
        memo = {}
        new = {}
        for x in sl:
            new[x] = mk("muk", bool(x.args[2]), work[x][0], subst(work[x][1], m.get, memo), h)
        if r == ROUNDS - 1:
            break
        col = new
    m = dict(col)
    m[iv] = bv
    memo = {}
    hb, bb = subst(hb, m.get, memo), subst(bb, m.get, memo)
    return mk("fix", new[mu], N if N is not None else NONE, hb, bb)


def bound(N, H, iv, L):
    """turn the part of the loop condition that bounds the iteration number into N"""
    if H <= 1:
        return N, H
    if N is not None:
        return N, H
    for a in bsupport(H):
        for val in (True, False):
            if T._brestrict(H, a, not val) != 0:
                continue
            b = _bound_of(a, val, iv, L)
            if b is not None:
                return b, T._brestrict(H, a, val)
    return N, H


def _bound_of(a, val, iv, L):
    if a.op not in ("lt0", "eq0"):
        return None
    p = poly_of(a.args[0])
    c = p.pop(((iv, 1),), None)
    r = from_poly(p)
    if c is None or any(x is iv or x.op == "mu" for x in deps(r, L)):
        return None
    if a.op == "lt0":
        if val and c == 1:
            return neg(r)
        if not val and c == -1:
            return add(r, num(1))
        return None
    if not val:
        if c == 1:
            return neg(r)
        if c == -1:
            return r
    return None
