"""Parametric mesh world for the value-graph engine.

An unstructured finite-volume loop is judged through one arbitrary face (and its cells): every loop over faces or cells is
replaced by its body at the indices of that face or of those cells, in program order, under the integer facts that define the kind of
face (physical boundary, interior, inter-process).  Sizes, indices, coordinates, states stay symbolic.  Loop bounds are compared
with the mesh's index ranges; a bound that leaves membership of the face undetermined becomes a gate of the result."""
import re
from itertools import combinations
from . import vg, flowspec as fs
from .vg import Num, const, ZERO, ONE, Ptr, Obj, Opaque, Node, EngineLimit, UNDEF, NULL, P, ite, band, bor, bnot, clean
from .ast import AnalysisBroken, short

MESH = 'fvens::UMesh<double, 2>'


def scalar_fields(prog, cls):
    """all (name, type) of a record and its bases"""
    out = []
    for c in prog.bases(cls)[::-1] + [cls]:
        r = prog.records.get(c)
        if r:
            out += [(f['n'], f['t']) for f in r['fields']]
    return out


def rng0(lo):
    return isinstance(lo, Num) and lo.v == 0


class World:
    KINDS = ('boundary', 'interior', 'connectivity')

    def __init__(self, eng, kind, nvars=4, nnode=None):
        self.eng, self.prog, self.kind, self.nv = eng, eng.prog, kind, nvars
        if MESH not in eng.prog.records:
            raise AnalysisBroken('anchor vanished: class UMesh')
        eng.world = self
        eng.callog = []
        eng.strings = {}
        a = eng.atom
        self.mesh = Ptr(Obj('mesh', cls=MESH, sym=True))
        # ---- sizes and the face of interest -----------------------------------------------------------
        f, nb, ni, nc, nelem = a('iface'), a('nbface'), a('ninner'), a('nconn'), a('nelem')
        self.iface, self.nb, self.nc, self.nelem = f, nb, nc, nelem
        add, sub = eng.add, eng.sub
        e1, e2, e3 = nb, add(nb, ni), add(add(nb, ni), nc)
        self.starts = {'boundary': ZERO, 'interior': e1, 'connectivity': e2}
        self.ends = {'boundary': e1, 'interior': e2, 'connectivity': e3}
        self.naface = e3
        L = self.L = a('lelem')
        facts = [f, nb, ni, nc, L, sub(sub(nelem, L), ONE), sub(f, self.starts[kind]), sub(sub(self.ends[kind], f), ONE)]
        if kind == 'interior':
            R = a('relem')
            facts += [R, sub(sub(nelem, R), ONE)]
            self.cells = [L, R]
        elif kind == 'connectivity':
            R = add(nelem, sub(f, e2))
            self.cells = [L]
        else:
            R = add(add(nelem, nc), f)
            self.cells = [L]
        self.R = R
        self.realR = kind == 'interior'
        self.factlist = facts
        eng.set_facts(facts)
        # distinct cells
        eng.neqfacts |= {(L.v - R.v) % P, (R.v - L.v) % P}
        self.cellbounds = {'0': ZERO, 'nelem': nelem, 'nelem+nconn': add(nelem, nc), 'ntot': add(add(nelem, nc), nb)}
        self.facebounds = {'0': ZERO, 'nb': e1, 'ni': e2, 'naface': e3}
        fieldset = {'nelem': nelem, 'nbface': nb, 'nconnface': nc, 'naface': e3, 'ninface': ni, 'phyBFaceStart': ZERO, 'phyBFaceEnd': e1,
                    'subDomFaceStart': e1, 'subDomFaceEnd': e2, 'connBFaceStart': e2, 'connBFaceEnd': e3, 'domFaceStart': e1, 'domFaceEnd': e3,
                    'nnofa': const(2)}
        names = {n for n, t in scalar_fields(eng.prog, MESH)}
        for n, v in fieldset.items():
            if n not in names:
                raise AnalysisBroken('anchor vanished: UMesh::' + n)
            eng.store(eng.st, eng.field(self.mesh, n), v)
        # ---- data of the face -----------------------------------------------------------------------------
        self.n = fs.normal(eng)
        self.len = a('facelen', 1)
        self.bind_get('gintfac', [f, const(0)], L)
        self.bind_get('gintfac', [f, const(1)], R)
        for d in range(2):
            self.bind_get('gfacemetric', [f, const(d)], self.n[d])
        self.bind_get('gfacemetric', [f, const(2)], self.len)
        self.area = [a('areaL', 1), a('areaR', 1)]
        self.bind_get('garea', [L], self.area[0])
        if self.realR:
            self.bind_get('garea', [R], self.area[1])
        if kind == 'boundary':
            self.tag = self.get('gbtags', [f, const(0)])
        eng.loop_hook = self.loop
        eng.loop_wants = self.wants
        eng.unmodelled = self.unmodelled
        eng.virtual_hook = self.virtual
        eng.unknown_hook = self.unknown
        self.vhooks = {}
        self.ptrbind = {}
        self.vecs = {}
        self.mats = []
        self.cellloops = 0
        self.faceloops = 0
        self.looplog = []
        m = eng.models
        m['VecGetArray'] = m['VecGetArrayRead'] = m['VecGetArrayWrite'] = self.m_getarray
        m['VecGhostGetLocalForm'] = self.m_localform
        m['VecGetLocalSize'] = self.m_localsize
        m['MatSetValuesBlocked'] = m['MatSetValuesBlockedLocal'] = m['MatSetValues'] = self.m_matset
        m['MPI_Comm_size'] = m['MPI_Comm_rank'] = self.m_comm
        m['operator=='] = self.m_streq
        m['operator!='] = self.m_strne
        m['VecGhostUpdateBegin'] = m['VecGhostUpdateEnd'] = self.m_ghost
        m['abs'] = None
        del m['abs']
        self.ghosthook = None
        self.accumulate = False     # replace zeroed per-cell accumulators by the arbitrary sum over faces visited earlier
        self.zeroed = {}
        self.rest = {}

    # ---- mesh data ------------------------------------------------------------------------------------------
    def method(self, cls, name, np, pick=None):
        for c in [cls] + self.prog.bases(cls):
            for f in self.prog.fns.values():
                if f.cls == c and f.name == name and len(f.params) == np and (pick is None or pick(f)):
                    return f
        raise AnalysisBroken('anchor vanished: %s::%s/%d' % (short(cls), name, np))

    def get(self, name, args):
        return self.eng.invoke_values(self.method(MESH, name, len(args)), self.mesh, list(args))

    def bind_get(self, name, args, val):
        eng = self.eng
        so, eng.loads = eng.loads, []
        self.get(name, args)
        loc = eng.loads[-1][0]
        eng.loads = so
        eng.store(eng.st, loc, val)

    def facepoints(self):
        """coordinates of the two nodes of the face"""
        eng = self.eng
        out = []
        for k in range(2):
            ip = self.get('gintfac', [self.iface, const(2 + k)])
            out.append([self.get('gcoords', [ip, const(i)]) for i in range(2)])
        return out

    def fields_of_type(self, cls, rx):
        return [n for n, t in scalar_fields(self.prog, cls) if re.search(rx, t)]

    # ---- vectors ----------------------------------------------------------------------------------------------
    def vec(self, name):
        p = Ptr(Obj('vec:' + name, sym=True))
        arr = Ptr(Obj('arr:' + name, sym=True))
        self.vecs[p.o] = arr
        return p, arr

    def array_of(self, v):
        if not isinstance(v, Ptr) or v.o is None:
            raise EngineLimit('array of an unknown vector')
        if v.o not in self.vecs:
            self.vecs[v.o] = Ptr(Obj('arr:' + v.o.name, sym=True))
        return self.vecs[v.o]

    def m_getarray(self, eng, e, d, obj, args, env):
        v = eng.rv(args[0], env)
        q = eng.rv(args[1], env)
        eng.store(eng.st, q, self.array_of(v))
        return ZERO

    def m_localform(self, eng, e, d, obj, args, env):
        q, v = eng.rv(args[1], env), eng.rv(args[0], env)
        eng.store(eng.st, q, v)
        return ZERO

    def m_localsize(self, eng, e, d, obj, args, env):
        n = eng.mul(self.nelem, const(self.nv))
        eng.exact.add(n.v)
        q = eng.rv(args[1], env)
        eng.store(eng.st, q, n)
        return ZERO

    def m_ghost(self, eng, e, d, obj, args, env):
        v = eng.rv(args[0], env)
        eng.callog.append((d['name'], v, eng.curline))
        if self.ghosthook:
            self.ghosthook(d['name'], v)
        return ZERO

    def m_comm(self, eng, e, d, obj, args, env):
        q = eng.rv(args[1], env)
        eng.store(eng.st, q, self.nprocs if d['name'].endswith('size') else eng.atom('mpirank'))
        return ZERO
    nprocs = const(1)

    def m_matset(self, eng, e, d, obj, args, env):
        vs = [eng.rv(a, env) for a in args]
        A, nr, ri, nc, ci, vals, mode = vs
        ld = lambda p: eng.load(eng.st, p, 'int')
        if nr.c != 1 or nc.c != 1:
            nr, nc = int(nr.c), int(nc.c)
            rows = [ld(eng.padd(ri, const(i), 'int *')) for i in range(nr)]
            cols = [ld(eng.padd(ci, const(i), 'int *')) for i in range(nc)]
        else:
            rows, cols = [ld(ri)], [ld(ci)]
        bs = self.nv if 'Blocked' in d['name'] else 1
        n = len(rows) * len(cols) * bs * bs
        vv = [eng.load(eng.st, eng.padd(vals, const(i), 'double *'), 'double') for i in range(n)]
        self.mats.append((d['name'], A, rows, cols, vv, mode, '%s:%s' % (eng.cur[-1].file, e.get('l') or eng.curline), eng.pathcond()))
        return ZERO

    def m_streq(self, eng, e, d, obj, args, env):
        ops = ([obj] if obj is not None else []) + list(args)
        if not any('basic_string' in clean(o['t']) or 'std::string' in clean(o['t']) for o in ops):
            return NotImplemented
        lit, other = None, None
        for o in ops:
            x = o
            while x['k'] == 'Cast':
                x = x['e']
            if x['k'] == 'Str':
                lit = x.get('v', '')
            else:
                other = x
        if lit is None or other is None:
            raise EngineLimit('comparison of two string variables')
        p = eng.lv(other, env)
        nm = p.pre[-1] if p.pre else p.o.name
        if nm in eng.strings:
            return eng.strings[nm] == lit
        return Node(eng.named_gate('str:%s==%s' % (eng.locname(p), lit)), True, False)

    def m_strne(self, eng, e, d, obj, args, env):
        r = self.m_streq(eng, e, d, obj, args, env)
        return r if r is NotImplemented else bnot(r)

    def unknown(self, eng, p, t, nm):
        return None

    def unmodelled(self, eng, e, d, this, args, env):
        nm = d['name']
        if re.match(r'^(Vec|Mat|KSP|PC|IS[A-Z]|Petsc|PETSC|MPI_|omp_|_?_?kmpc)', nm):
            eng.callog.append((nm, None, eng.curline))
            if clean(e['t']) == 'void':
                return Opaque('void')
            return ZERO
        cls = d.get('cls') or ''
        if cls.startswith('std::map') and nm == 'at':
            k = eng.rv(args[0], env)
            kk = k.v if isinstance(k, Num) else repr(k)
            q = Ptr(eng.gzero.setdefault(('mapat', this.key(), kk), Obj('map.at', cls='?', sym=True)))
            vt = clean(e['t'])
            if vt.endswith('*'):
                r = Ptr(eng.gzero.setdefault(('mapat*', this.key(), kk), Obj('mapped', cls=vg.pointee(vt), sym=True)))
                eng.gzero[('mapkey', r.o)] = k
                eng.st.mem[q.key()] = r
            return q
        if cls.startswith('std::numeric_limits'):
            return eng.atom('numeric:' + nm, -1 if nm == 'lowest' else 1)
        if 'basic_string<' in clean(e['t']) or clean(e['t']) == 'std::string':
            return Opaque('str')
        if nm == 'operator=' and cls in self.prog.records and len(args) == 1 and isinstance(this, Ptr):
            v = eng.rv(args[0], env)
            if isinstance(v, Ptr):
                eng.assign_record(this, v, cls)          # implicitly defined assignment
            return this
        if nm.startswith('~') or nm in ('c_str', 'basic_string', 'to_string', 'clear', 'reserve', 'begin', 'end'):
            return Opaque('ext:' + nm)
        if nm in ('isnan', 'isinf', 'isfinite', '__isnan', '__isinf'):
            return nm.endswith('isfinite')
        raise EngineLimit('call of %s has no body and no model, line %s of %s' % (d['q'], e.get('l'), eng.cur[-1:]))

    def virtual(self, eng, e, d, this, args, env):
        h = self.vhooks.get(d['name'])
        if h is None:
            raise EngineLimit('virtual call of %s at line %s of %s' % (d['q'], e.get('l'), eng.cur[-1:]))
        vals = []
        for a, p in zip(args, d['params']):
            t = p['t'].strip()
            vals.append(eng.rv(a, env) if eng.scalar_t(t) and not t.endswith('&') else eng.lv(a, env))
        return h(this, vals, e)

    # ---- loops ------------------------------------------------------------------------------------------------
    def near(self, v, table):
        for nm, b in table.items():
            for k in (0, 1, -1, 2, -2):
                if (v.v - b.v - k) % P == 0:
                    return nm, k
        return None

    def instances(self, lo, hi):
        """indices of interest for a loop over [lo,hi); None when the range is not one of the mesh's index ranges"""
        eng = self.eng
        c = self.near(hi, {k: v for k, v in self.cellbounds.items() if k != '0'}) or self.near(lo, {k: v for k, v in self.cellbounds.items() if k != '0'})
        if c:
            self.cellloops += 1
            return 'cell', list(self.cells) + ([self.R] if not self.realR else [])
        f1 = self.near(hi, {k: v for k, v in self.facebounds.items() if k != '0'})
        f0 = self.near(lo, self.facebounds)
        if f1 and f0:
            self.faceloops += 1
            return 'face', [self.iface]
        if rng0(lo):
            for n in (2, 4, 8):
                for nm, b in self.cellbounds.items():
                    if nm != '0' and (hi.v - n * b.v) % P == 0:
                        self.cellloops += 1
                        cells = list(self.cells) + ([self.R] if not self.realR else [])
                        return 'cell', [eng.add(eng.mul(c, const(n)), const(j)) for c in cells for j in range(n)]
            for n in (2, 3, 4, 8):
                for nm, b in self.facebounds.items():
                    if nm != '0' and (hi.v - n * b.v) % P == 0:
                        self.faceloops += 1
                        return 'face', [eng.add(eng.mul(self.iface, const(n)), const(j)) for j in range(n)]
            # entries of a cell-wise array, up to an unusual number of them: which cells are reached is left to the gates
            b = {nm: v for nm, v in self.cellbounds.items() if nm != '0'}
            for n1, v1 in b.items():
                for n2, v2 in b.items():
                    for x in range(0, 9):
                        for y in range(-8, 9):
                            if (x or y) and any((hi.v - x * v1.v - y * v2.v - k) % P == 0 for k in (0, 1, -1, 2, -2)):
                                self.cellloops += 1
                                cells = list(self.cells) + ([self.R] if not self.realR else [])
                                n = max(abs(x), abs(y))
                                return 'cell', [eng.add(eng.mul(c, const(n)), const(j)) for c in cells for j in range(n)]
        for k, s in self.starts.items():
            f1 = self.near(eng.add(hi, s), {q: v for q, v in self.facebounds.items() if q != '0'})
            f0 = self.near(eng.add(lo, s), self.facebounds)
            if f1 and f0 and s.c != 0:
                self.faceloops += 1
                return 'face', [eng.sub(self.iface, s)]
        return None

    def wants(self, eng, s, st, env):
        """is this a loop over a range of unknown size?"""
        try:
            iv, op, bound = self.induction(self.plain(s)['c'], env, st)
        except EngineLimit:
            return False
        lo = st.mem.get(env[iv['id']].key()) if isinstance(env[iv['id']], Ptr) else None
        if not isinstance(lo, Num):
            return False
        eng.st = st
        hi = eng.tonum(eng.rv(bound, env))
        return isinstance(hi, Num) and (lo.c is None or hi.c is None)

    def plain(self, s):
        """`for(..; A && B; ..) body` as `for(..; A; ..) { if(!B) break; body }`"""
        c = s.get('c')
        while c is not None and c['k'] in ('Cast', 'Paren'):
            c = c['e']
        if c is None or c['k'] != 'Bin' or c['op'] != '&&' or s['k'] not in ('For', 'While'):
            return s
        parts, todo = [], [c]
        while todo:
            x = todo.pop()
            while x['k'] in ('Cast', 'Paren') and clean(x['t']) == 'bool':
                x = x['e']
            if x['k'] == 'Bin' and x['op'] == '&&':
                todo += [x['b'], x['a']]
            else:
                parts.append(x)
        rel = [x for x in parts if x['k'] == 'Bin' and x['op'] in ('<', '<=', '>', '>=', '!=')]
        if not rel:
            return s
        l = s.get('l')
        out = dict(s)
        body = s['body']
        for x in parts:
            if x is not rel[0]:
                body = {'k': 'Block', 'l': l, 'body': [{'k': 'If', 'l': l, 'c': x, 'a': {'k': 'Nop', 'l': l}, 'b': {'k': 'Break', 'l': l}, 'init': None, 'cvar': None}, body]}
        out['c'], out['body'] = rel[0], body
        return out

    def counters(self, s, env, iv):
        """integer variables other than the induction variable that every iteration advances by the same amount"""
        from .ast import walk
        body = s['body']
        top, todo = [], [body]
        while todo:
            x = todo.pop(0)
            if x['k'] == 'Block':
                todo = x['body'] + todo
            else:
                top.append(x)
        exprs = [x['e'] for x in top if x['k'] == 'Expr'] + ([s['inc']] if s.get('inc') else [])
        while any(e['k'] == 'Bin' and e['op'] == ',' for e in exprs):
            exprs = [y for e in exprs for y in ([e['a'], e['b']] if e['k'] == 'Bin' and e['op'] == ',' else [e])]
        out = {}
        for e in exprs:
            if e['k'] == 'Un' and e['op'] in ('++', '--', 'post++', 'post--') or e['k'] == 'Asg' and e['op'] in ('+=', '-='):
                x = e['e'] if e['k'] == 'Un' else e['a']
                if x['k'] != 'Ref' or x['id'] not in env or x['id'] == iv['id'] or not re.match(r'(int|long|unsigned|size_t|short|char)', clean(x['t'])):
                    continue
                step = 1 if e['k'] == 'Un' else e['b'].get('cv')
                if not isinstance(step, int) or isinstance(step, bool):
                    continue
                out[x['id']] = out.get(x['id'], 0) + (-step if '-' in e['op'] else step) if x['id'] not in out else None
            v = self.appends(e)
            if v in env:
                out['size', v] = 1 if ('size', v) not in out else None
        if not out:
            return {}
        if any(x['k'] == 'Continue' for x in walk(body)):
            return {}
        for x in walk(body):
            if x['k'] == 'Call' and ('size', self.appends(x)) in out and not any(x is e for e in exprs):
                out['size', self.appends(x)] = None
            if x['k'] in ('Un', 'Asg') and (x['k'] == 'Asg' or '++' in x['op'] or '--' in x['op'] or x['op'] == '&'):
                t = self._target(x)
                if t in out and not any(x is e for e in exprs):
                    out[t] = None
        return {k: v for k, v in out.items() if v is not None}

    def appends(self, e):
        """the local vector that v.push_back(..) lengthens"""
        if e['k'] != 'Call' or not e.get('obj') or self.eng.prog.decls.get(e.get('fn'), {}).get('name') not in ('push_back', 'emplace_back'):
            return None
        o = e['obj']
        while o['k'] == 'Cast':
            o = o['e']
        return o['id'] if o['k'] == 'Ref' and clean(o['t']).startswith('std::vector<') else None

    def loop(self, eng, s, st, env):
        """summarise `for(i = lo; i < hi; ++i)` (or an equivalent while loop, or a count-down)"""
        if s['k'] == 'ForRange':
            r = s['range']
            while r['k'] == 'Cast':
                r = r['e']
            if not clean(r['t']).startswith('std::vector<') or '__indexed' in s:
                raise EngineLimit('range-for over %s' % s['range']['t'])
            from .desugar import Desugar
            return eng.exec(Desugar(eng.prog, eng.prog.decls).indexed(s, r), st, env)
        s = self.plain(s)
        cond = s['c']
        where = '%s:%s' % (eng.cur[-1].file if eng.cur else '?', s.get('l') or eng.curline)
        iv, op, bound = self.induction(cond, env, st)
        p = env[iv['id']]
        lo = st.mem.get(p.key())
        if not isinstance(lo, Num):
            raise EngineLimit('induction variable without a start value at ' + where)
        eng.st = st
        hi = eng.tonum(eng.rv(bound, env))
        st = eng.st
        if not isinstance(hi, Num):
            hi = self.gated_bound(hi, where)
        # direction: by the effect of one iteration on the induction variable
        down = op in ('>', '>=')
        first, last = lo, hi
        if not down:
            if op == '<=':
                hi = eng.add(hi, ONE)
            rng = (lo, hi)
        else:
            if op == '>':
                hi = eng.add(hi, ONE)
            rng = (hi, eng.add(lo, ONE))
        inst = self.instances(*rng)
        if inst is None:
            r = self.custom_loop(s, st, env, iv, rng, where)
            if r is not None:
                return r
            raise EngineLimit('loop over an unknown range at ' + where)
        kind, idxs = inst
        self.looplog.append((where, kind))
        extra = {}
        for i, d in self.counters(s, env, iv).items():
            q = env[i[1]] if isinstance(i, tuple) else env[i]
            if isinstance(i, tuple) and isinstance(q, Ptr):
                q = eng.field(q, '_size')
                st.mem.setdefault(q.key(), ZERO)
            v = st.mem.get(q.key()) if isinstance(q, Ptr) else None
            if isinstance(v, Num):
                extra[q.key()] = (v, const(d))
        if self.accumulate and kind == 'face':
            for k, q in self.zeroed.items():
                v = st.mem.get(k)
                if isinstance(v, Num) and v.c == 0:
                    st.mem[k] = self.rest[k] = eng.atom('earlier:' + eng.locname(q))
        log, eng.stores = eng.stores, []
        s = dict(s, __extra={k: (lambda ix, v=v, d=d: eng.add(v, eng.mul(d, eng.sub(rng[1], eng.add(ix, ONE)) if down else eng.sub(ix, rng[0])))) for k, (v, d) in extra.items()})
        st = self.iterate(eng, s, st, env, p, rng, idxs, down, where)
        if kind == 'cell':
            for q, v, l in eng.stores:
                if isinstance(v, Num) and v.c == 0:
                    self.zeroed[q.key()] = q
        if log is not None:
            log.extend(eng.stores)
        eng.stores = log
        for k, (v, d) in extra.items():
            st.mem[k] = eng.add(v, eng.mul(d, eng.sub(rng[1], rng[0])))
        st.mem[p.key()] = hi if not down else eng.sub(rng[0], ONE)
        return st

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        extra = s.get('__extra') or {}
        for ix in idxs:
            c = band(eng.cmp('>=', ix, rng[0]), eng.cmp('<', ix, rng[1]))
            if c is False:
                continue
            s1 = st.clone() if c is not True else st
            s1.mem[p.key()] = ix
            for k, fn in extra.items():
                s1.mem[k] = fn(ix)
            if c is not True:
                eng.path.append(c)
            s1 = eng.exec(s['body'], s1, env)
            if c is not True:
                eng.path.pop()
            s1.cont = False
            if s1.brk is not False:
                raise EngineLimit('loop with a break at ' + where)
            if s.get('inc') is not None:
                eng.st = s1
                eng.rv(s['inc'], env)
                s1 = eng.st
            nx = s1.mem.get(p.key())
            d = eng.sub(nx, ix) if isinstance(nx, Num) else None
            if d is None or d.c is None and (d.v not in (1, P - 1)) or (d.v != (P - 1 if down else 1)):
                raise EngineLimit('induction variable does not advance by one at ' + where)
            st = s1 if c is True else eng.merge(c, s1, st)
        return st

    def gated_bound(self, hi, where):
        raise EngineLimit('gated loop bound at ' + where)

    def custom_loop(self, s, st, env, iv, rng, where):
        return None

    def induction(self, cond, env, st):
        c = cond
        while c is not None and c['k'] in ('Cast', 'Paren'):
            c = c['e']
        if c is None or c['k'] != 'Bin' or c['op'] not in ('<', '<=', '>', '>=', '!='):
            raise EngineLimit('loop condition at line %s of %s' % (self.eng.curline, self.eng.cur[-1:]))

        def ref(x):
            while x['k'] == 'Cast':
                x = x['e']
            return x if x['k'] == 'Ref' and x['id'] in env else None
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}
        cands = []
        a, b = ref(c['a']), ref(c['b'])
        if a is not None:
            cands.append((a, c['op'], c['b']))
        if b is not None:
            cands.append((b, flip[c['op']], c['a']))
        if len(cands) > 1:
            # the one the loop changes
            from .ast import walk
            cands = [x for x in cands if x[1] is not None]
            eng = self.eng
            cands = [x for x in cands if any(n['k'] in ('Un', 'Asg') and self._target(n) == x[0]['id'] for n in walk(self._cur))] if getattr(self, '_cur', None) else cands[:1]
        if not cands:
            raise EngineLimit('loop without a recognisable induction variable at line %s' % self.eng.curline)
        iv, op, bound = cands[0]
        if op == '!=':
            op = '<'
        return iv, op, bound

    def _target(self, n):
        x = n['e'] if n['k'] == 'Un' else n['a']
        while x['k'] == 'Cast':
            x = x['e']
        return x.get('id')

