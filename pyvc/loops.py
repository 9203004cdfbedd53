"""Loop rule: inductive invariants from templates, pruned until inductive (Houdini); functional invariants for byte accumulators."""
from __future__ import annotations

import ast
import itertools

import z3

from .sym import *
from .vc import LoopInfo, MBA, PathEnd, follow_path
from .interp import SymSeq, SymGen, Tail, norm_seq, assigned_names, _Break, _Continue, is_sym, YieldAll, IGen


class LoopState:
    pass


def numeric(v):
    return isinstance(v, (SInt, int)) and not isinstance(v, bool)


def term(v):
    return v.t if isinstance(v, SInt) else z3.IntVal(int(v))


def loop_rule(it, s, fr, key, src, target):
    vc = it.vc
    info = vc.loops.setdefault(key, LoopInfo())
    alloc = next(vc.alloc_n)
    names = assigned_names(s.body) + (assigned_names([s]) if target is not None else [])
    names = [n for n in dict.fromkeys(names) if n in fr.vars and not isinstance(fr.vars[n], Poison)]
    tnames = set()
    if target is not None:
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}

    # ---------------------------------------------------------------- locations
    def read(loc):
        k, x = loc
        if k == 'local':
            return fr.vars[x]
        if k == 'ghost':
            return vc.ghost[x]
        if k == 'idx':
            return idx[0]
        o = vc.byid.get(k)
        if isinstance(o, MBA):
            return o.rope
        if isinstance(o, Opq):
            return o.fields.get(x)
        if isinstance(o, (list, dict, set)):
            return None
        return o.__dict__.get(x)

    def write(loc, v):
        k, x = loc
        if k == 'local':
            fr.vars[x] = v
        elif k == 'ghost':
            vc.ghost[x] = v
        elif k == 'idx':
            idx[0] = v
        else:
            o = vc.byid.get(k)
            if isinstance(o, MBA):
                o.rope = v
            elif isinstance(o, Opq):
                o.fields[x] = v
            else:
                object.__setattr__(o, x, v)

    idx = [SInt(z3.IntVal(0))]
    n_items = None
    if isinstance(src, SymSeq):
        n_items = iv(src.n)
        if not vc.valid(n_items >= 0):
            raise Unsupported('sequence of possibly negative length')
    mods = []
    canon = {}
    for where, field in info.mods:
        w0 = where
        if isinstance(where, tuple):
            o = follow_path(fr, where)
            lab = vc.labels.get(id(o)) if o is not None else None
            if lab is None:
                continue
            where = lab[0]
        elif isinstance(where, int) and where not in vc.byid:
            continue
        if (where, field) not in mods:
            mods.append((where, field))
            canon[(where, field)] = f"{'/'.join(map(str, w0)) if isinstance(w0, tuple) else w0}.{field}"
    locs = [('local', n) for n in names if n not in tnames] + mods
    if isinstance(src, SymSeq):
        locs.append(('idx', 'i'))
    entry = {}
    listaccs = {}
    for l in locs:
        if l[1] == '[]':
            o = vc.byid.get(l[0])
            if not (isinstance(o, list) and isinstance(src, SymSeq)):
                raise Unsupported(f"a container is modified in a loop: {o!r:.80} {src}")
            listaccs[l] = (o, list(o))
            entry[l] = None
            continue
        entry[l] = read(l)

    # ---------------------------------------------------------------- candidates
    ints = [l for l in locs if numeric(entry[l])]
    # unmodified integer terms in scope
    consts = {}
    for n, v in fr.vars.items():
        if numeric(v) and ('local', n) not in locs and n not in tnames:
            consts[n] = term(v)
    slf = fr.first
    if slf is not None and not is_sym(slf) and hasattr(slf, '__dict__'):
        for n, v in vars(slf).items():
            lab = vc.labels.get(id(slf))
            if numeric(v) and not (lab and (lab[0], n) in locs):
                consts['self.' + n] = term(v)
    for g, v in vc.ghost.items():
        if numeric(v) and ('ghost', g) not in locs:
            consts['ghost.' + g] = term(v)
    if n_items is not None:
        consts['#items'] = n_items
    for k, v in getattr(vc, 'loop_terms', {}).items():
        consts[k] = v

    def nm(l):
        return l[1] if l[0] in ('local', 'idx') else canon.get(l) or f"{l[0]}.{l[1]}"
    cands = {}
    e = {l: term(entry[l]) for l in ints}
    for l in ints:
        cands[f"{nm(l)}>=0"] = lambda c, l=l: c[l] >= 0
        cands[f"{nm(l)}>=1"] = lambda c, l=l: c[l] >= 1
        cands[f"{nm(l)}>=entry"] = lambda c, l=l: c[l] >= e[l]
        cands[f"{nm(l)}<=entry"] = lambda c, l=l: c[l] <= e[l]
        cands[f"{nm(l)}==entry"] = lambda c, l=l: c[l] == e[l]
        cands[f"{nm(l)}-entry even"] = lambda c, l=l: (c[l] - e[l]) % 2 == 0
        for kn, kt in consts.items():
            cands[f"{nm(l)}<={kn}"] = lambda c, l=l, kt=kt: c[l] <= kt
            cands[f"{nm(l)}>={kn}"] = lambda c, l=l, kt=kt: c[l] >= kt
    for a, b in itertools.combinations(ints, 2):
        cands[f"{nm(a)}-{nm(b)} const"] = lambda c, a=a, b=b: c[a] - c[b] == e[a] - e[b]
        cands[f"{nm(a)}+{nm(b)} const"] = lambda c, a=a, b=b: c[a] + c[b] == e[a] + e[b]
        cands[f"{nm(a)}<={nm(b)}"] = lambda c, a=a, b=b: c[a] <= c[b]
        cands[f"{nm(a)}>={nm(b)}"] = lambda c, a=a, b=b: c[a] >= c[b]
    for a in ints:
        for b in ints:
            if a != b:
                for kn, kt in consts.items():
                    if kn.startswith('self.') or kn.startswith('ghost.') or True:
                        cands[f"{nm(a)}==entry+({nm(b)}-entry)*{kn}"] = lambda c, a=a, b=b, kt=kt: c[a] == e[a] + (c[b] - e[b]) * kt
    if len(ints) * len(ints) * len(consts) > 120:
        cands = {k: v for k, v in cands.items() if ')*' not in k}
    if n_items is not None and ('idx', 'i') in ints:
        # as above, except for what the last iteration did
        for a in ints:
            if a[0] == 'ghost':
                for kn, kt in consts.items():
                    for cn, ct in consts.items():
                        if cn != kn and cn != '#items':
                            cands[f"{nm(a)}==entry+i*{kn} or ended and =={cn}"] = lambda c, a=a, kt=kt, ct=ct: z3.Or(
                                c[a] == e[a] + c[('idx', 'i')] * kt, z3.And(c[('idx', 'i')] == n_items, c[a] == ct))
    for l in locs:
        v = entry[l]
        if isinstance(v, (bool, SBool)):
            cands[f"{nm(l)} is entry"] = lambda c, l=l: (c[l] == it.bterm(entry[l])) if l in c else None
    for k, fn in getattr(vc, 'extra_invariants', {}).items():
        cands[k] = (lambda c, fn=fn: fn(vc, fr, lambda loc: c.get(loc, read(loc))))

    def state():
        r = {l: term(read(l)) for l in ints if numeric(read(l))}
        for l in locs:
            if isinstance(read(l), (bool, SBool)):
                r[l] = it.bterm(read(l))
        return r

    def holds(name, c):
        try:
            t = cands[name](c)
        except KeyError:
            return None
        return t
    if info.cands is None:
        info.cands = set()
        c0 = state()
        for k in cands:
            t = holds(k, c0)
            if t is not None and vc.entails(t):
                info.cands.add(k)
        # deterministic replays: the queries above are in the trace
    elif vc.live():
        c0 = state()
        for k in sorted(info.cands & set(cands)):
            t = holds(k, c0)
            if t is None or not vc.entails(t):
                info.cands.discard(k)
                vc.changed = True
    if vc.changed:
        raise PathEnd()

    # ---------------------------------------------------------------- buffered streams: A ++ B[:f] == entry ++ contributions
    mbas = [l for l in locs if isinstance(vc.byid.get(l[0]), MBA)]
    news = [l for l in locs if isinstance(entry[l], MBA)]             # a field holding the buffer object itself
    outs = [l for l in locs if isinstance(entry[l], Rope) and isinstance(vc.byid.get(l[0]), Opq)]
    stream = None
    if (mbas or news) and outs and getattr(vc, 'cats', {}):
        info.streams = info.streams if info.streams is not None else [(outs[0], l, c) for l in ints if l[0] not in ('idx', 'ghost')
                                                                     for c in vc.cats] + [None]
        stream = info.streams[0]
        if stream is not None:
            A, fl, cn = stream
            bufloc = (news or mbas)[0]
            b0 = entry[bufloc].rope if news else entry[bufloc]
            LB = iv(b0.n)
            if not (vc.entails(term(entry[fl]) == 0) or not vc.live()):
                info.streams.pop(0)
                vc.changed = True
                raise PathEnd()
    # ---------------------------------------------------------------- havoc
    vc.precise = False
    fresh = {}
    accs = {}
    smembers = set() if stream is None else {A, fl, *news, *mbas}
    for l in locs:
        v = entry[l]
        if l in smembers or l in listaccs:
            continue
        if l[0] == 'idx':
            fresh[l] = vc.int('i', 0)
            vc.add(fresh[l].t <= n_items)
        elif numeric(v):
            fresh[l] = vc.int(nm(l))
        elif isinstance(v, (bool, SBool)):
            fresh[l] = vc.bool(nm(l))
        elif isinstance(v, SReal) or isinstance(v, float):
            fresh[l] = vc.real(nm(l))
        elif isinstance(v, (Rope, bytes, bytearray, str)):
            kind = v.kind if isinstance(v, Rope) else type(v).__name__
            # functional candidates: entry ++ (concatenation of the contributions so far)
            opts = info.cat.setdefault(l, ['entry'] + [c for c in getattr(vc, 'cats', {})] + ['unknown'])
            accs[l] = opts[0]
            if opts[0] == 'entry':
                fresh[l] = v
            elif opts[0] == 'unknown':
                fresh[l] = vc.bytes(nm(l), kind, inp=False)
            else:
                cat = vc.cats[opts[0]]
                fresh[l] = concat(kind, v, cat.upto(vc, None))
        else:
            opts = info.cat.setdefault(l, ['entry', 'unknown'])
            accs[l] = opts[0]
            fresh[l] = v if opts[0] == 'entry' else Poison(f"{nm(l)} is changed by a loop")
        write(l, fresh[l])
    if isinstance(src, SymSeq):
        i = fresh[('idx', 'i')].t
    for l, (o, e0) in listaccs.items():
        # the list is its entry content followed by the first i elements of the sequence (checked below)
        o[:] = e0 + [Tail(SymSeq(src.name, i, src.elem))]
    for l, o in accs.items():
        if o not in ('entry', 'unknown'):
            cat = vc.cats[o]
            if cat.ghost is None and isinstance(src, SymSeq):
                pos = cat.pos(vc, i)
            else:
                pos = vc.ghost.get(cat.ghost)
            if pos is None:
                info.cat[l].pop(0)
                vc.changed = True
                raise PathEnd()
            v = entry[l]
            kind = v.kind if isinstance(v, Rope) else type(v).__name__
            fresh[l] = concat(kind, v, cat.upto(vc, pos))
            write(l, fresh[l])
    def catpos(cat, j):
        return cat.pos(vc, j) if cat.ghost is None else vc.ghost.get(cat.ghost)
    if stream is not None:
        cat = vc.cats[cn]
        p = catpos(cat, i if isinstance(src, SymSeq) else None).t
        a = vc.int('flushed', 0).t
        vc.add(a <= p)
        vc.add(p - a <= LB)
        write(A, concat('bytes', entry[A], Rope('bytes', [Base(cat.f, 0, a, cat.nm)])))
        write(fl, SInt(z3.simplify(p - a)))
        rest = vc.base('buffer', z3.simplify(LB - (p - a)), 'bytearray')
        content = concat('bytearray', Rope('bytearray', [Base(cat.f, a, z3.simplify(p - a), cat.nm)]), rest)
        if news:
            nb = MBA(content)
            write(news[0], nb)
            vc.label(nb)
            for l in mbas:
                vc.byid[l[0]].rope = content
        else:
            write(bufloc, content)
    c1 = state()
    alive = sorted(info.cands & set(cands))
    for k in alive:
        t = holds(k, c1)
        if t is not None:
            vc.add(t)
    for g in ([src] if isinstance(src, SymGen) else []):
        if g.inv is not None:
            vc.assume(g.inv(vc))

    # ---------------------------------------------------------------- one arbitrary iteration / exit
    if target is None:
        c = it.ev(s.test, fr)
        enter = it.truth(c)
    elif isinstance(src, SymSeq):
        enter = vc.decide(i < n_items)
    else:
        enter = vc.decide(src.more(vc))
    if enter:
        ls = LoopState()
        ls.info, ls.alloc, ls.frame, ls.names = info, alloc, fr, set(names)
        ls.ghost0 = set(vc.ghost)
        ls.mods = list(mods)
        vc.loopstack.append(ls)
        before = state()
        try:
            if isinstance(src, SymSeq):
                cur = src.elem(vc, i)
                it.bind_target(target, cur, fr)
            elif isinstance(src, SymGen):
                it.bind_target(target, src.next(vc), fr)
            try:
                yield from it.ex(s.body, fr)
            except _Continue:
                pass
            except _Break:
                vc.loopstack.remove(ls)
                return
        finally:
            if ls in vc.loopstack:
                vc.loopstack.remove(ls)
        # ---- preservation
        for l, o in accs.items():
            if isinstance(vc.cats.get(o), SpecCat):
                vc.cats[o].touch(vc, i)
        if isinstance(src, SymSeq):
            write(('idx', 'i'), SInt(z3.simplify(i + 1)))
        if vc.live():
            for l in locs:
                if numeric(entry[l]) and not numeric(read(l)):
                    raise Unsupported(f"{nm(l)} changes its type in a loop")
            for l, (o, e0) in listaccs.items():
                ok = len(o) == len(e0) + 2 and all(x is y for x, y in zip(o, e0)) and isinstance(o[len(e0)], Tail)
                if ok and o[-1] is not cur:
                    x, y = it.as_num(o[-1]), it.as_num(cur)
                    ok = x is not None and y is not None and type(o[-1]) is type(cur) and vc.entails(x[1] == y[1])
                if not ok:
                    raise Unsupported('a list is not extended by the current element in each iteration of a loop')
            after = state()
            for k in alive:
                t = holds(k, after)
                if t is None or not vc.entails(t):
                    info.cands.discard(k)
                    vc.changed = True
            for l, o in accs.items():
                if o == 'unknown':
                    continue
                now = read(l)
                if o == 'entry':
                    ok = now is entry[l] or (isinstance(now, (Rope, bytes, str)) and vc._same(rope(now), rope(entry[l])))
                else:
                    cat = vc.cats[o]
                    pos = cat.pos(vc, z3.simplify(i + 1)) if cat.ghost is None else vc.ghost[cat.ghost]
                    v = entry[l]
                    want = concat(v.kind if isinstance(v, Rope) else type(v).__name__, v, cat.upto(vc, pos))
                    ok = isinstance(now, (Rope, bytes, str, bytearray)) and rope_valid_eq(it, rope(now), want)
                if not ok:
                    info.cat[l].pop(0)
                    vc.changed = True
            if stream is not None:
                p2 = catpos(cat, z3.simplify(i + 1) if isinstance(src, SymSeq) else None)
                buf = read(bufloc)
                buf = buf.rope if isinstance(buf, MBA) else buf
                fv = read(fl)
                ok = isinstance(buf, Rope) and numeric(fv) and isinstance(read(A), Rope)
                if ok:
                    t = term(fv)
                    ok = vc.entails(z3.And(iv(buf.n) == LB, t >= 0, t <= LB))
                if ok:
                    now = concat('bytes', read(A), it.rope_slice(buf, 0, SInt(t)))
                    ok = rope_valid_eq(it, now, concat('bytes', entry[A], cat.upto(vc, p2)))
                if not ok:
                    info.streams.pop(0)
                    vc.changed = True
            if target is None and not vc.changed:
                # termination measures
                ms = set()
                for l in ints:
                    b, a = before[l], after[l]
                    if vc.entails(z3.And(a < b, b >= 0)):
                        ms.add(('dec', nm(l)))
                    for kn, kt in consts.items():
                        if vc.entails(z3.And(a > b, b <= kt)):
                            ms.add(('inc', nm(l), kn))
                info.measures = ms if info.measures is None else info.measures & ms
                if not ms or not info.measures:
                    vc.prove(f"terminates: loop at {fr.name}", z3.Bool(vc.fname('no_measure_found')), 'no decreasing measure found')
                else:
                    vc.prove(f"terminates: loop at {fr.name}", True)
        raise PathEnd()
    yield from it.ex(s.orelse, fr)


def rope_valid_eq(it, a, b):
    """Entailed equality of two sequences (recorded, deterministic)."""
    vc = it.vc
    if not vc.entails(iv(a.n) == iv(b.n)):
        return False
    if vc._same(a, b):
        return True
    vc.solver.push()
    save = list(vc.pc), set(vc.axset)
    k = z3.Int('skolem_k')
    c = z3.And(k >= 0, k < iv(a.n))
    vc.pc.append(c)
    vc.solver.add(c)
    try:
        return vc.entails(a.get(vc, k) == b.get(vc, k))
    finally:
        vc.solver.pop()
        vc.pc, vc.axset = save


class Cat:
    """The concatenation of the contributions of the elements of a sequence, as an unknown byte string with offsets."""

    def __init__(self, vc, name, ghost=None):
        self.name, self.ghost = name, ghost
        nm = vc.fname('cat_' + name)
        self.f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.o = z3.Function(nm + '_off', z3.IntSort(), z3.IntSort())
        self.nm = nm
        vc.add(self.o(0) == 0)
        vc.cats[name] = self

    def pos(self, vc, i):
        t = self.o(i)
        vc.axiom(t >= 0)
        return SInt(t)

    def upto(self, vc, pos):
        if pos is None:
            return Rope('bytes', [])
        p = pos.t if isinstance(pos, SInt) else pos
        return Rope('bytes', [Base(self.f, 0, p, self.nm)])

    def item(self, vc, i, n):
        """Contribution of the i-th element, of length n."""
        vc.axiom(z3.And(self.o(i) >= 0, n >= 0))
        vc.axiom(self.o(z3.simplify(i + 1)) == self.o(i) + n)
        return Rope('bytes', [Base(self.f, self.o(i), n, self.nm)])


class SpecCat(Cat):
    """The concatenation of contributions given by a specification: contrib(i) -> Rope (evaluated when element i is first used)."""

    def __init__(self, vc, name, contrib):
        super().__init__(vc, name)
        self.contrib = contrib
        self.done = set()

    def touch(self, vc, i):
        i = z3.simplify(iv(i))
        k = i.sexpr()
        if k in self.done:
            return
        self.done.add(k)
        r = self.contrib(i)
        n = z3.simplify(iv(r.n))
        vc.axiom(z3.And(self.o(i) >= 0, n >= 0))
        vc.axiom(self.o(z3.simplify(i + 1)) == self.o(i) + n)
        vc.unfold.setdefault(self.nm, []).append((self.o(i), n, r))
