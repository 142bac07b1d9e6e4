"""Loop rules that simulate a specification fold; the values of the program's locals per fold state are inferred."""
from .verify import *


def kind_of(v):
    if isinstance(v, Seq):
        return 'seq'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int) or is_sym(v) and isinstance(v, z3.BitVecRef):
        return 'int'
    if isinstance(v, IterV) or isinstance(v, Ptr) and v.idx is not None:
        return 'iter'
    if is_sym(v):
        return 'bool'
    return 'other'


class AutoFold:
    """The loop simulates a fold over finitely many control states.

    Per control state g, each modified local is: tied to the iteration counter (entry value + i), tied to a ghost term,
    a constant, bounded below by a constant and above by i, or arbitrary - inferred by propagation from the entry
    until nothing changes (each state is explored with its final abstraction, so the result is an inductive invariant).
    Locals holding sequences are tied to the fold's output.
    Subclasses: start, begin(st), step(st) (called at the head; sets p.ghost 'g2', 'i2'), forms(p, after), check_seq(st, v).
    """
    start = None

    def per(self, st):
        return st.p.ex.persist.setdefault(('fold', st.key), {'drop': set(), 'order': [], 'abs': {}, 'path': {}})

    def lockey(self, loc):
        return (loc[0].key, loc[1])

    def forms(self, p, after):
        return []

    def begin(self, st):
        pass

    def entry(self, st):
        P = self.per(st)
        st.p.ghost.pop('gk', None)
        self.types = {loc: t for lv, t, loc in st.items()}
        vals = {loc: lv.load(st.p) for lv, t, loc in st.items()}
        self.begin(st)
        st.p.ghost['fold'] = self
        st.p.ghost['i_entry'] = 0
        self.merge(st, P, self.start, vals, 0, (), self.entry_forms(st))

    def entry_forms(self, st):
        return [(n, 0) for n, _ in self.forms(st.p, False)]

    def locw(self, st, loc):
        return st.I.width(self.types[loc])

    def plus(self, e, i, w):
        return simp(bv(e, w) + (z3.Extract(w - 1, 0, bv(i, 64)) if w < 64 else bv(i, 64)))

    def drop(self, P, x):
        P['drop'].add(x)
        P['order'], P['abs'], P['path'] = [], {}, {}
        raise Restart()

    def merge(self, st, P, g, vals, i, path, forms):
        p = st.p
        changed = g not in P['abs']
        if changed:
            P['abs'][g] = {}
            P['order'].append(g)
            P['path'][g] = path
        A = P['abs'][g]
        for loc, v in vals.items():
            k = self.lockey(loc)
            kd = kind_of(v)
            if kd == 'seq' or kd == 'other' and self.owns(st, loc, v):
                continue
            e = st.entry[loc]
            if kd == 'iter':
                if isinstance(e, type(v)) and e.lv.key() == v.lv.key() and p.entails(Eq(bv(v.idx, 64), bv(e.idx, 64) + bv(i, 64))):
                    continue
                raise ToolLimit('an iterator that does not advance by one per iteration')
            if kd == 'int':
                w = self.locw(st, loc)
                done = False
                for nm, t in [('i', None)] + list(forms):
                    if (nm, k) in P['drop']:
                        continue
                    if nm != 'i' and is_sym(t) and t.size() != w:
                        self.drop(P, (nm, k))
                    want = self.plus(e, i, w) if nm == 'i' else bv(t, w)
                    if p.entails(Eq(bv(v, w), want)):
                        done = True
                        break
                    self.drop(P, (nm, k))
                if done:
                    continue
            if is_sym(v):
                v = self.concrete(p, v)
            if k not in A:
                A[k] = ('top',) if is_sym(v) else ('is', v)
                changed = True
                continue
            a = A[k]
            if a[0] == 'top':
                continue
            if a[0] == 'is':
                if self.same(p, a[1], v):
                    continue
                if kd == 'int' and not is_sym(v) and isinstance(a[1], int):
                    A[k] = ('ge', min(a[1], v))
                elif kd == 'int' and isinstance(a[1], int) and p.entails(And(ule(a[1], self.to64(v)), ule(self.to64(v), i))):
                    A[k] = ('ge', a[1])
                else:
                    A[k] = ('top',)
                changed = True
                continue
            if p.entails(And(ule(a[1], self.to64(v)), ule(self.to64(v), i))):
                continue
            A[k] = ('top',)
            changed = True
        return changed

    def concrete(self, p, v):
        if p.solver.check() != z3.sat:
            return v
        c = p.solver.model().eval(v, True)
        if not p.entails(v == c):
            return v
        return z3.is_true(c) if z3.is_bool(c) else c.as_long()

    def to64(self, v):
        return z3.ZeroExt(64 - v.size(), v) if is_sym(v) and v.size() < 64 else v

    def same(self, p, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.idx is None and b.idx is None:
            return a.lv.key() == b.lv.key()
        if is_sym(a) or is_sym(b):
            return p.entails(Eq(a, b))
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        return val_same(a, b)

    def arbitrary(self, st):
        """ghost values of an arbitrary iteration; p.ghost['g'] is set"""
        raise NotImplementedError

    def pick(self, st):
        p = st.p
        if 'gk' in p.ghost:
            return
        P = self.per(st)
        p.ghost['pre_choice'] = len(p.dec)
        k = p.dec_choose(len(P['order']))
        p.ghost['g'] = P['order'][k]
        p.ghost['gk'] = k
        p.ghost['path'] = P['path'][p.ghost['g']]
        self.arbitrary(st)

    def owns(self, st, loc, v):
        """a location whose value the rule itself relates to the fold (other_value, check_other)"""
        return False

    def seq_value(self, st, loc, old):
        return st.p.ghost['out']

    def havoc(self, st, lv, t, loc, old):
        p = st.p
        self.pick(st)
        P = self.per(st)
        i = p.ghost['i']
        k = self.lockey(loc)
        kd = kind_of(old)
        if kd == 'seq':
            return self.seq_value(st, loc, old)
        if kd == 'other' and self.owns(st, loc, old):
            return self.other_value(st, loc, old)
        if kd == 'iter':
            return type(old)(old.lv, simp(bv(old.idx, 64) + bv(i, 64)))
        if kd == 'int':
            w = self.locw(st, loc)
            for nm, t in [('i', None)] + list(self.forms(p, False)):
                if (nm, k) not in P['drop']:
                    return self.plus(old, i, w) if nm == 'i' else (simp(bv(t, w)) if is_sym(t) else t)
        a = P['abs'][p.ghost['g']].get(k, ('top',))
        if a[0] == 'is':
            return a[1]
        if kd == 'bool':
            return p.freshbool('h')
        if kd == 'int':
            v = p.freshbv('h', self.locw(st, loc))
            if a[0] == 'ge':
                p.assume(And(ule(a[1], self.to64(v)), ule(self.to64(v), i)))
            return v
        raise ToolLimit('no abstraction for a local of the loop in %s' % (st.key,))

    def head(self, st):
        p = st.p
        if not st.locs:
            p.ghost['gk'] = None
            p.ghost['g'], p.ghost['path'] = self.start, ()
            p.ghost['i'] = 0
            self.first(st)
        p.ghost['where'] = 'body'
        self.step(st)

    def first(self, st):
        st.p.ghost['out'] = Lit([])

    def do_cond_at_head(self, st):
        return True

    def back(self, st):
        p = st.p
        G = p.ghost
        if G['gk'] is None:
            raise Restart()
        P = self.per(st)
        if G.get('g2', None) is None:
            p.prove(False, 'no iteration after the last element', 'inv')
            return
        vals = {}
        for lv, t, loc in st.items():
            v = lv.load(p)
            vals[loc] = v
            if kind_of(v) == 'seq':
                self.check_seq(st, v)
            elif kind_of(v) == 'other' and self.owns(st, loc, v):
                self.check_other(st, loc, v)
        if self.merge(st, P, G['g2'], vals, add(G['i'], 1), G['path2'], self.forms(p, True)):
            p.ex.push(tuple(p.dec[:G['pre_choice']]) + (P['order'].index(G['g2']),))

    def exit(self, st):
        st.p.ghost['where'] = 'exit'


class CopyLoop:
    """for (x : s) out.push_back(x): used without being asked for. The invariant (out is the old contents and the elements
    so far) is checked on every path; where it does not hold, the loop is not decided."""

    @staticmethod
    def make(I, b, e):
        p = I.p
        if not (isinstance(b, IterV) and isinstance(e, IterV)):
            return None
        s = b.lv.load(p)
        n = sub(e.idx, b.idx)
        if not isinstance(s, Seq) or e.lv.key() != b.lv.key() or not is_sym(n) or not p.entails(And(ule(b.idx, e.idx), ule(e.idx, s.len))):
            return None
        r = CopyLoop()
        s = slice_(p, s, b.idx, n)
        r.s, r.n, r.it = s, n, b
        return r

    def entry(self, st):
        self.i = None

    def havoc(self, st, lv, t, loc, old):
        p = st.p
        if self.i is None:
            self.i = p.freshbv('copied', 64)
            p.assume(ule(self.i, self.n))
        if isinstance(old, IterV) and old.lv.key() == self.it.lv.key():
            return IterV(old.lv, add(old.idx, self.i))
        if isinstance(old, Seq) and lv.key() != self.it.lv.key():
            return cat(old, slice_(p, self.s, 0, self.i))
        if isinstance(old, Seq) and old is self.s:            # its elements are moved from
            self.left = cat(self.anything(st, t, old, self.i), slice_(p, old, self.i, sub(self.n, self.i)))
            return self.left
        raise ToolLimit('loop in %s needs a loop invariant' % st.key[0])

    def anything(self, st, t, old, n):
        et = t.strip().args[0]
        return FnSeq(n, lambda p, k: st.I.symbolic(et, 'moved'), ('moved', id(self)))

    def head(self, st):
        pass

    def do_cond_at_head(self, st):
        return True

    def back(self, st):
        p = st.p
        for lv, t, loc in st.items():
            v, old = lv.load(p), st.entry[loc]
            if old is self.s:
                ok = v is self.left or isinstance(v, Upd) and v.s is self.left and p.entails(Eq(bv(v.i, 64), bv(self.i, 64)))
            elif isinstance(old, IterV):
                ok = p.entails(Eq(bv(v.idx, 64), bv(old.idx, 64) + bv(self.i, 64) + 1))
            else:
                want = cat(old, slice_(p, self.s, 0, self.i), Lit([self.s.at(p, self.i)]))
                ok = val_same(v, want) or self.close(p, v, want)
            if not ok:
                raise ToolLimit('loop in %s needs a loop invariant' % st.key[0])

    def close(self, p, v, want):
        vs, ws = (x.parts if isinstance(x, Cat) else [x] for x in (v, want))
        if len(vs) != len(ws) or not all(val_same(a, b) for a, b in zip(vs[:-1], ws[:-1])):
            return False
        a, b = vs[-1], ws[-1]
        if not (isinstance(a, Lit) and isinstance(b, Lit) and len(a.e) == len(b.e)):
            return False
        return all(val_same(x, y) or (is_sym(x) or isinstance(x, int)) and (is_sym(y) or isinstance(y, int)) and p.entails(Eq(x, y)) for x, y in zip(a.e, b.e))

    def exit(self, st):
        p = st.p
        if self.i is None:
            return
        if p.entails(Eq(bv(self.i, 64), bv(self.n, 64))):
            for lv, t, loc in st.items():
                if st.entry[loc] is self.s:
                    lv.store(p, self.anything(st, t, self.s, self.n))
                elif isinstance(st.entry[loc], Seq):
                    lv.store(p, cat(st.entry[loc], self.s))


class SearchFold(AutoFold):
    """a hand-written search loop: every index passed over does not satisfy pred (set by the harness before the call)"""
    start = 's'

    def __init__(self):
        self.n = self.pred = None

    def arbitrary(self, st):
        p = st.p
        i = p.ghost['i'] = p.freshbv('searched', 64)
        p.assume(ule(i, self.n))
        p.ghost.setdefault('passed', []).append((i, self.pred))

    def first(self, st):
        pass

    def seq_value(self, st, loc, old):
        return old

    def step(self, st):
        p = st.p
        p.ghost['g2'] = 's' if p.decide(ult(p.ghost['i'], self.n)) else None
        p.ghost['path2'] = ()

    def back(self, st):
        if st.p.ghost['g2'] is not None:
            st.p.prove(Not(self.pred(st.p.ghost['i'])), 'the search passes over non-matching entries only', 'inv')
        AutoFold.back(self, st)

    def check_seq(self, st, v):
        prove_eq(st.p, v, st.entry[[l for _, _, l in st.items()][0]], 'the searched container is not changed', 'inv')


def not_before(p, j, k):
    """facts at index j for the search loops passed"""
    for i, pred in p.ghost.get('passed', []):
        p.fact(zb(Implies(ult(j, i), Not(pred(j)))))
