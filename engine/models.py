"""Models (assumed contracts) of the library operations the verified code calls:
std containers/algorithms, Eigen dense matrices, boost pow/unordered_map/mutex, glog."""
from sx import *

SOLVERS = {'colPivHouseholderQr', 'fullPivLu', 'partialPivLu', 'householderQr', 'fullPivHouseholderQr', 'completeOrthogonalDecomposition', 'lu', 'ldlt', 'llt', 'jacobiSvd', 'bdcSvd'}

class MVM(VM):
    def is_mat(self, v):
        return isinstance(v, (Mat, EView, Lazy, SMat)) or (isinstance(v, LV) and not isinstance(v, (EView, MapNode)) and isinstance(v.load(), (Mat, SMat)))
    def M(self, v):
        """matrix value"""
        if isinstance(v, LV): v = v.load()
        if isinstance(v, Lazy): v = self.force(v)
        if isinstance(v, Comma): v = v.lv.load()
        return v
    def mat_rows(self, v):
        if isinstance(v, EView): return v.r
        m = self.M(v); return m.r
    def mat_cols(self, v):
        if isinstance(v, EView): return v.c
        m = self.M(v); return m.c

    def args_i(self, vals): return [self.rval(x) for x in vals]

    # ------------------------------------------------------------------
    def model(self, fid, r, name, cls, obj, vals, e):
        sh = r['short']
        if name.startswith('vf::'): return self.vf(sh, r, vals)
        if name == 'verif_shim::check':
            c = self.rval(vals[0])
            self.prog_check(c); return z3.BoolVal(True)
        if name == '__assert_fail':
            self.assert_fail(); raise ProgAbort()
        if name.startswith('verif_shim::'):
            if sh == 'checkNotNull':
                p = self.rval(vals[0]); self.prog_check(bv(not (isinstance(p, Ptr) and p.lv is None))); return p
            return obj
        if cls.startswith('std::basic_ostream') or (sh == 'operator<<' and vals and self.is_stream(r)) : return obj if obj is not None else vals[0]
        if name in ('printf', 'fprintf', 'std::endl', 'std::flush', 'fflush', 'puts', 'std::exit', 'exit', 'abort', 'std::abort'):
            if sh in ('exit', 'abort'): self.on_abort(sh); raise ProgAbort()
            if name == 'std::endl': return vals[0]
            return z3.IntVal(0)
        if cls.startswith('Eigen::') or name.startswith('Eigen::'): return self.eigen(sh, r, cls, obj, vals, e)
        if cls == 'std::vector': return self.vector(sh, r, obj, vals)
        if cls == 'std::initializer_list':
            if sh == 'size': return self.length(self.rval(obj))
            if sh in ('begin', 'end'):
                return Ptr(self.lval(obj), z3.IntVal(0) if sh == 'begin' else self.length(self.rval(obj)))
        if cls == 'std::array': return self.array(sh, r, obj, vals)
        if cls == '__gnu_cxx::__normal_iterator' or cls.startswith('std::reverse_iterator') or '_iterator' in cls or 'iterator' in cls: return self.iterator(sh, r, obj, vals)
        if cls == 'std::map': return self.smap(sh, r, obj, vals)
        if cls in ('boost::unordered::unordered_map', 'boost::unordered_map', 'std::unordered_map'): return self.umap(sh, r, obj, vals)
        if cls == 'std::pair' and sh == 'operator=':
            obj.store(self.rval(vals[0])); return obj
        if name.startswith('__gnu_cxx::operator') or name.startswith('boost::unordered::') and sh.startswith('operator') or (name.startswith('std::operator') and vals and isinstance(self.rval(vals[0]), (VIter, MIter, Ptr, CVec, Pair))):
            a = self.rval(vals[0]); b = self.rval(vals[1])
            op = r['op']
            if isinstance(a, CVec): return self.veccmp(op, a, b)
            if isinstance(a, z3.ArithRef) and isinstance(b, VIter): a, b = b, a
            if op in ('+', '-') and isinstance(b, z3.ArithRef): return VIter(a.lv, z3.simplify(iv(a.i) + b if (op == '+') != a.rev else iv(a.i) - b), a.rev)
            if isinstance(a, (VIter, MIter)): return self.iterop(op, a, b)
            if isinstance(a, Ptr): return self.ptrop(op, a, b)
            return NotImplemented
        if name.startswith('std::') or name.startswith('boost::') or '::' not in name or name.startswith('__'):
            x = self.stdfn(name, sh, r, vals, fid)
            if x is not NotImplemented: return x
        return NotImplemented
    def same_value(self, a, b):
        if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef): return rv(a) == rv(b)
        q = self.model(None, {'op': '==', 'ptypes': [], 'name': 'std::operator==', 'short': 'operator=='}, 'std::operator==', '', None, [a, b], None)
        if q is NotImplemented: raise Unsupported('comparison of values')
        return q
    def find_any(self, a, b, x): raise Unsupported('search in a vector of unknown size')
    def is_stream(self, r):
        return bool(r['ptypes']) and 'ostream' in self.P.T(self.P.strip(r['ptypes'][0])).get('name', '')

    def prog_check(self, c):
        """CHECK(c): the program aborts when c is false"""
        if not self.decide(c if isinstance(c, z3.ExprRef) else bv(c)):
            self.on_abort('CHECK failure'); raise ProgAbort()
    def assert_fail(self): self.on_abort('assert failure')
    def on_abort(self, what):
        if getattr(self, 'abort_ok', False): return
        self.oblige(False, 'no abort: %s in %s' % (what, self.where), 'safety')

    # ------------------------------------------------------------------ harness primitives
    def vf(self, sh, r, vals):
        name = vals[0].what[4:] if vals and isinstance(vals[0], Opaque) and isinstance(vals[0].what, str) else ''
        g = [self.rval(v) for v in vals]
        if sh in ('real', 'grid'):
            v = self.fresh('in_' + name, R)
            lo = hi = None
            if len(g) >= 3: lo, hi = g[1], g[2]
            self.nsym.append((str(v)[3:], v, lo, hi)); return v
        if sh == 'choose':
            lo, hi = cint(g[1]), cint(g[2])
            hi = min(hi, lo + getattr(self, 'choose_cap', 1 << 30))
            d = lo + self.choose(hi - lo + 1)
            v = self.fresh('in_' + name, I); self.add(v == d)
            self.nsym.append((str(v)[3:], v, None, None))
            return z3.IntVal(d)
        if sh == 'assume': self.add(g[0]); return None
        if sh == 'require': self.oblige(g[1], name); return None
        if sh == 'eq': self.oblige(g[1] == g[2], name); return None
        if sh == 'expectAbort': self.abort_ok = True; return None
        if sh == 'notReached': self.oblige(False, name); raise PathEnd()
        if sh == 'native': return z3.BoolVal(False)
        if sh in ('bound', 'big'): return g[1] if getattr(self.cfg, 'thorough', False) else g[0]
        raise Unsupported('vf::' + sh)

    # ------------------------------------------------------------------ scalar std
    def stdfn(self, name, sh, r, vals, fid):
        if sh in ('move', 'forward', 'addressof', '__addressof', 'as_const', 'ref', 'cref') and len(vals) == 1:
            return vals[0] if sh not in ('addressof', '__addressof') else self.addr(vals[0])
        if sh in ('max', 'min') and len(vals) == 2:
            a, b = self.rval(vals[0]), self.rval(vals[1])
            if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef):
                # std::max(a,b) == (a<b)?b:a ; std::min == (b<a)?b:a
                lt = (a < b) if sh == 'max' else (b < a)
                if self.entails(lt): return Root(b)
                if self.entails(z3.Not(lt)): return Root(a)
                return Root(z3.simplify(z3.If(lt, b, a)))
        if sh in ('abs', 'fabs', '__builtin_fabs'):
            a = self.rval(vals[0]); return z3.simplify(z3.If(a >= 0, a, -a))
        if sh in ('isnan', '__builtin_isnan'): return z3.BoolVal(False)
        if sh in ('isfinite', '__builtin_isfinite', 'isnormal'): return z3.BoolVal(True)
        if sh in ('isinf', '__builtin_isinf', '__builtin_isinf_sign'): return z3.BoolVal(False)
        if sh == 'sqrt':
            a = self.rval(vals[0]); s = self.fresh('sqrt', R); self.add(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a))); return s
        if sh in ('floor', 'ceil') and len(vals) == 1:
            a = self.rval(vals[0]); f = z3.ToReal(z3.ToInt(a))
            return f if sh == 'floor' else -z3.ToReal(z3.ToInt(-a))
        if name == 'boost::math::pow':
            n = int(r['targs'][0]['i']); a = self.rval(vals[0]); v = z3.RealVal(1)
            for k in range(n): v = a if k == 0 else v * a
            return v
        if sh in ('pow', '__builtin_pow') and len(vals) == 2:
            a, b = self.rval(vals[0]), self.rval(vals[1])
            b = z3.simplify(b)
            n = None
            if z3.is_int_value(b): n = b.as_long()
            elif z3.is_rational_value(b) and b.denominator_as_long() == 1: n = b.numerator_as_long()
            if n is not None and 0 <= n <= 12:
                v = z3.RealVal(1); a = rv(a)
                for k in range(n): v = a if k == 0 else v * a
                return v
            return z3.Function('pow', R, R, R)(rv(a), rv(b))
        if sh in ('__builtin_expect',): return vals[0]
        if sh == 'fma' and len(vals) == 3:
            a, b, c = [self.rval(v) for v in vals]; return a * b + c
        if sh == 'swap' and len(vals) == 2:
            a, b = vals[0].load(), vals[1].load(); vals[0].store(b); vals[1].store(a); return None
        if sh == 'iter_swap' and len(vals) == 2:
            a, b = self.deref(self.rval(vals[0])), self.deref(self.rval(vals[1]))
            x, y = a.load(), b.load(); a.store(y); b.store(x); return None
        if sh in ('next', 'prev') and vals:
            it = self.rval(vals[0]); n = self.rval(vals[1]) if len(vals) > 1 else z3.IntVal(1)
            return self.advance_it(it, n if sh == 'next' else -n)
        if sh == 'advance' and len(vals) == 2:
            vals[0].store(self.advance_it(vals[0].load(), self.rval(vals[1]))); return None
        if sh == 'distance' and len(vals) == 2:
            a, b = self.rval(vals[0]), self.rval(vals[1])
            if isinstance(a, VIter): return self.iterop('-', b, a)
            if isinstance(a, Ptr): return z3.simplify(iv(b.idx) - iv(a.idx))
            if isinstance(a, MIter):
                n = 0
                while a.uid != b.uid: a = self.m_next(a); n += 1
                return z3.IntVal(n)
        if sh in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'rbegin', 'rend', 'data') and len(vals) == 1:
            v = self.rval(vals[0])
            if isinstance(v, (CVec, SVec)): return self.vector(sh, r, vals[0], [])
            if isinstance(v, Arr): return self.array(sh, r, vals[0], [])
        if sh == 'back_inserter': return ('back_ins', vals[0])
        if sh == 'make_pair': return Pair(self.rval(vals[0]), self.rval(vals[1]))
        if sh == 'inner_product' and len(vals) == 4 and not isinstance(vals[3], Lam):
            a, b, c, init = [self.rval(v) for v in vals]
            n = self.itdist(a, b); k = cint(n)
            if k is not None:
                acc = init
                for j in range(k):
                    x = self.deref(self.advance_it(a, z3.IntVal(j))).load(); y = self.deref(self.advance_it(c, z3.IntVal(j))).load()
                    acc = self.num(acc) + self.num(x) * self.num(y) if not is_zero(acc) else self.num(x) * self.num(y)
                return acc
            return NotImplemented
        if name == 'std::find' and len(vals) == 3:
            a, b = self.rval(vals[0]), self.rval(vals[1]); x = self.rval(vals[2])
            if isinstance(a, VIter):
                k = cint(self.itdist(a, b))
                if k is None: return self.find_any(a, b, x)
                for j in range(k):
                    it = self.advance_it(a, z3.IntVal(j))
                    if self.decide(self.same_value(self.deref(it).load(), x)): return it
                return b
        if sh == 'fill' and len(vals) == 3:
            a, b = self.rval(vals[0]), self.rval(vals[1]); x = self.rval(vals[2])
            k = cint(self.itdist(a, b))
            if k is not None:
                for j in range(k): self.deref(self.advance_it(a, z3.IntVal(j))).store(x)
                return None
            return NotImplemented
        if sh == 'reverse' and len(vals) == 2:
            a, b = self.rval(vals[0]), self.rval(vals[1])
            if isinstance(a, VIter):
                v = a.lv.load(); i, j = cint(iv(a.i)), cint(iv(b.i))
                if isinstance(v, CVec) and i is not None and j is not None:
                    el = list(v.e); el[i:j] = reversed(el[i:j]); a.lv.store(CVec(el, v.et)); return None
        if sh == 'move' and len(vals) == 3 or sh == 'copy' and len(vals) == 3:
            a, b, c = [self.rval(v) if not isinstance(v, tuple) else v for v in vals]
            k = cint(self.itdist(a, b))
            if k is not None:
                for j in range(k):
                    x = self.deref(self.advance_it(a, z3.IntVal(j))).load()
                    if isinstance(c, tuple): self.push(self.lval(c[1]), x)
                    else: self.deref(self.advance_it(c, z3.IntVal(j))).store(x)
                return c if isinstance(c, tuple) else self.advance_it(c, z3.IntVal(k))
        return NotImplemented
    def num(self, v): return rv(v) if isinstance(v, z3.ArithRef) else v
    def itdist(self, a, b):
        if isinstance(a, VIter): return self.iterop('-', b, a)
        if isinstance(a, Ptr): return z3.simplify(iv(b.idx) - iv(a.idx))
        raise Unsupported('iterator distance')
    def advance_it(self, it, n):
        if isinstance(it, Ptr): return Ptr(it.lv, z3.simplify(iv(it.idx) + n))
        if isinstance(it, VIter): return VIter(it.lv, z3.simplify(iv(it.i) - n if it.rev else iv(it.i) + n), it.rev)
        if isinstance(it, MIter):
            c = cint(n)
            for _ in range(abs(c)):
                fwd = (c > 0) != it.rev
                x = self.m_next(MIter(it.lv, it.uid)) if fwd else self.m_prev(MIter(it.lv, it.uid))
                it = MIter(x.lv, x.uid, it.rev)
            return it
        raise Unsupported('advance')
    def veccmp(self, op, a, b):
        if len(a.e) != len(b.e): return z3.BoolVal(op == '!=')
        r = z3.And([x == y for x, y in zip(a.e, b.e)] + [z3.BoolVal(True)])
        return z3.simplify(r if op == '==' else z3.Not(r))

    # ------------------------------------------------------------------ iterators
    def iterator(self, sh, r, obj, vals):
        it = self.rval(obj) if obj is not None else None
        op = r.get('op')
        if isinstance(it, tuple): return obj
        if op in ('*', '->') and not vals:
            if isinstance(it, (VIter, MIter)):
                lv = self.deref_iter(it); return lv if op == '*' else Ptr(lv)
            if isinstance(it, Ptr): return self.deref(it) if op == '*' else it
        if op in ('++', '--'):
            new = self.advance_it(it, z3.IntVal(1 if op == '++' else -1))
            obj.store(new) if isinstance(obj, LV) else None
            if vals: return it            # postfix has a dummy int parameter
            return obj if isinstance(obj, LV) else new
        if op in ('+', '-') and vals:
            b = self.rval(vals[0])
            if isinstance(b, (VIter, MIter)): return self.iterop('-', it, b)
            return self.advance_it(it, b if op == '+' else -b)
        if op in ('+=', '-=') and vals:
            b = self.rval(vals[0]); obj.store(self.advance_it(it, b if op == '+=' else -b)); return obj
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.iterop(op, it, self.rval(vals[0]))
        if op == '[]':
            return self.deref_iter(self.advance_it(it, self.rval(vals[0])))
        if sh == 'base':
            return VIter(it.lv, it.i) if isinstance(it, VIter) else MIter(it.lv, it.uid)
        if op == '=':
            obj.store(self.rval(vals[0])); return obj
        return NotImplemented

    # ------------------------------------------------------------------ vector / array
    def push(self, lv, x):
        v = lv.load()
        if isinstance(v, CVec): lv.store(CVec(v.e + (x,), v.et)); return
        raise Unsupported('push_back on ' + type(v).__name__)
    def vector(self, sh, r, obj, vals):
        lv = self.lval(obj); v = lv.load()
        if isinstance(v, Opaque): raise Unsupported('opaque vector')
        n = self.length(v)
        op = r.get('op')
        if sh == 'size': return n
        if sh == 'empty': return z3.simplify(n == 0)
        if sh in ('reserve', 'shrink_to_fit'): return None
        if sh == 'capacity': return n
        if sh in ('at', 'operator[]'):
            i = self.rval(vals[0]); self.bounds(v, i, 'vector element'); return Sub(self, lv, ('i', self.conc(i)))
        if sh == 'front':
            self.bounds(v, z3.IntVal(0), 'vector front'); return Sub(self, lv, ('i', 0))
        if sh == 'back':
            self.bounds(v, n - 1, 'vector back'); return Sub(self, lv, ('i', self.conc(n - 1)))
        if sh in ('begin', 'cbegin'): return VIter(lv, z3.IntVal(0))
        if sh in ('end', 'cend'): return VIter(lv, n)
        if sh in ('rbegin', 'crbegin'): return VIter(lv, n, True)
        if sh in ('rend', 'crend'): return VIter(lv, z3.IntVal(0), True)
        if sh == 'data': return Ptr(lv, z3.IntVal(0))
        if sh == 'clear': lv.store(self.vec_empty(v)); return None
        if sh == 'push_back': self.push(lv, self.rval(vals[0])); return None
        if sh == 'emplace_back': self.push(lv, self.build(v.et, vals)); return Sub(self, lv, ('i', self.conc(n)))
        if sh == 'pop_back':
            self.bounds(v, n - 1, 'pop_back')
            if isinstance(v, CVec): lv.store(CVec(v.e[:-1], v.et)); return None
        if op == '=':
            x = self.rval(vals[0]); 
            if isinstance(x, Arr): x = CVec(x.e, v.et)
            lv.store(x); return lv
        if sh == 'swap':
            o = vals[0].load(); vals[0].store(v); lv.store(o); return None
        if isinstance(v, CVec):
            if sh in ('resize', 'assign') :
                if sh == 'assign' and len(vals) == 2 and isinstance(self.rval(vals[0]), (VIter, Ptr)):
                    lv.store(self.vec_range(v.et, self.rval(vals[0]), self.rval(vals[1]))); return None
                k = cint(self.rval(vals[0]))
                if k is None or k > 4096: raise Unsupported('resize to symbolic size')
                old = list(v.e) if sh == 'resize' else []
                fill = (lambda: self.rval(vals[1])) if len(vals) > 1 else (lambda: self.value_construct(v.et))
                lv.store(CVec(old[:k] + [fill() for _ in range(k - len(old))], v.et)); return None
            if sh == 'insert' and len(vals) == 3 and isinstance(self.rval(vals[1]), (VIter, Ptr)):
                k = cint(iv(self.rval(vals[0]).i)); x = self.vec_range(v.et, self.rval(vals[1]), self.rval(vals[2]))
                lv.store(CVec(v.e[:k] + x.e + v.e[k:], v.et)); return VIter(lv, z3.IntVal(k))
            if sh in ('insert', 'emplace') and len(vals) == 2:
                k = cint(iv(self.rval(vals[0]).i))
                lv.store(CVec(v.e[:k] + (self.rval(vals[1]),) + v.e[k:], v.et)); return VIter(lv, z3.IntVal(k))
            if sh == 'erase':
                k = cint(iv(self.rval(vals[0]).i)); j = cint(iv(self.rval(vals[1]).i)) if len(vals) > 1 else k + 1
                lv.store(CVec(v.e[:k] + v.e[j:], v.et)); return VIter(lv, z3.IntVal(k))
        return NotImplemented
    def vec_empty(self, v): return CVec([], v.et)
    def vec_range(self, et, a, b):
        k = cint(self.itdist(a, b))
        if k is None: raise Unsupported('symbolic range')
        return CVec([self.deref(self.advance_it(a, z3.IntVal(j))).load() for j in range(k)], et)
    def value_construct(self, et):
        t = self.P.T(self.P.strip(et))
        if t['k'] == 'rec' and self.P.rec_of(self.P.strip(et)) is not None: return self.default_construct(et)
        return self.zero(et)
    def build(self, et, vals):
        """T(args...) for emplace"""
        et = self.P.strip(et)
        if not vals: return self.value_construct(et)
        if len(vals) == 1:
            v = self.rval(vals[0])
            if not isinstance(v, Rec) or v.t == et:
                if not (self.P.T(et)['k'] == 'rec' and self.P.rec_of(et) is not None and not isinstance(v, Rec)): return v
        rec = self.P.rec_of(et)
        if rec is not None:
            cands = []
            allm = set(rec['methods'])
            for k, r in self.P.refs.items():
                if r.get('ctor') and self.P.strip(r['cls']) == et: allm.add(k)
            for m in allm:
                r = self.P.refs[m]
                if r.get('ctor') and len(r['ptypes']) == len(vals) and m in self.P.funcs and self.compatible(r['ptypes'], vals): cands.append(m)
            if len(cands) >= 1: return self.construct_rec(et, cands[0], vals)
        if len(vals) == 1 and isinstance(self.rval(vals[0]), (CVec, SVec)) and self.P.T(self.P.strip(et)).get('name') == 'std::vector': return self.rval(vals[0])
        x = self.model_ctor(et, None, {'ptypes': [], 'name': ''}, vals, {'args': []})
        if x is not None and x is not NotImplemented: return x
        raise Unsupported('emplace construction of ' + self.P.T(et)['s'])
    def compatible(self, pts, vals):
        for p, v in zip(pts, vals):
            t = self.P.T(self.P.strip(p)); x = self.rval(v)
            if t['k'] == 'builtin' and not isinstance(x, z3.ExprRef): return False
            if t['k'] == 'rec':
                if isinstance(x, Rec) and x.t != self.P.strip(p): return False
                if isinstance(x, z3.ArithRef): return False
        return True
    def array(self, sh, r, obj, vals):
        lv = self.lval(obj); v = lv.load(); n = len(v.e)
        if sh in ('operator[]', 'at'):
            i = self.rval(vals[0]); self.bounds(v, i, 'array element'); return Sub(self, lv, ('i', self.conc(i)))
        if sh in ('begin', 'cbegin', 'data'): return Ptr(lv, z3.IntVal(0))
        if sh in ('end', 'cend'): return Ptr(lv, z3.IntVal(n))
        if sh in ('rbegin', 'crbegin'): return VIter(lv, z3.IntVal(n), True)
        if sh in ('rend', 'crend'): return VIter(lv, z3.IntVal(0), True)
        if sh in ('size', 'max_size'): return z3.IntVal(n)
        if sh == 'empty': return z3.BoolVal(n == 0)
        if sh == 'front': return Sub(self, lv, ('i', 0))
        if sh == 'back': return Sub(self, lv, ('i', n - 1))
        if sh == 'fill': lv.store(Arr([self.rval(vals[0])] * n)); return None
        if r.get('op') == '=': lv.store(self.rval(vals[0])); return lv
        return NotImplemented

    # ------------------------------------------------------------------ maps (concrete shape)
    def newuid(self): self.uid += 1; return self.uid
    def mfind(self, m, key):
        """node uid with this key or None (forks)"""
        for u, k, v in m.items:
            if self.decide(k == key): return u
        return None
    def minsert(self, lv, key, val):
        m = lv.load()
        its = list(m.items)
        for j, (u, k, v) in enumerate(its):
            if self.decide(key == k): return u, False
            if self.decide(key < k):
                u2 = self.newuid(); its.insert(j, (u2, key, val)); lv.store(type(m)(its, m.kt, m.vt)); return u2, True
        u2 = self.newuid(); its.append((u2, key, val)); lv.store(type(m)(its, m.kt, m.vt)); return u2, True
    def smap(self, sh, r, obj, vals):
        lv = self.lval(obj); m = lv.load()
        op = r.get('op')
        g = [self.rval(v) for v in vals]
        us = [u for u, _, _ in m.items]
        if sh == 'size': return z3.IntVal(len(us))
        if sh == 'empty': return z3.BoolVal(not us)
        if sh == 'clear': lv.store(CMap([], m.kt, m.vt)); return None
        if sh in ('begin', 'cbegin'): return MIter(lv, us[0] if us else None)
        if sh in ('end', 'cend'): return MIter(lv, None)
        if sh in ('rbegin', 'crbegin'): return MIter(lv, None, True)
        if sh in ('rend', 'crend'): return MIter(lv, us[0] if us else None, True)
        if sh == 'find': return MIter(lv, self.mfind(m, g[0]))
        if sh == 'count':
            return z3.IntVal(0 if self.mfind(m, g[0]) is None else 1)
        if sh in ('upper_bound', 'lower_bound'):
            for u, k, v in m.items:
                if self.decide(k > g[0] if sh == 'upper_bound' else k >= g[0]): return MIter(lv, u)
            return MIter(lv, None)
        if sh in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign'):
            hint = False
            if len(g) == 2 and isinstance(g[0], MIter): hint = True; g = g[1:]
            if len(g) == 3: hint = True; g = g[1:]
            if len(g) == 2: key, val = g
            else: key, val = g[0].a, g[0].b
            u, ok = self.minsert(lv, key, val)
            if sh == 'insert_or_assign' and not ok: Sub(self, lv, ('n', u, 'second')).store(val)
            return MIter(lv, u) if hint else Pair(MIter(lv, u), z3.BoolVal(ok))
        if sh == 'operator[]':
            u = self.mfind(m, g[0])
            if u is None: u, _ = self.minsert(lv, g[0], self.value_construct(m.vt))
            return Sub(self, lv, ('n', u, 'second'))
        if sh == 'at':
            u = self.mfind(m, g[0])
            if u is None: self.on_abort('map::at'); raise ProgAbort()
            return Sub(self, lv, ('n', u, 'second'))
        if sh == 'erase':
            if isinstance(g[0], MIter):
                if len(g) == 2: raise Unsupported('range erase')
                u = g[0].uid
                if u is None or u not in us: self.oblige(False, 'erase of end or invalid iterator', 'safety'); raise PathEnd()
                j = us.index(u)
                lv.store(CMap([x for x in m.items if x[0] != u], m.kt, m.vt)); return MIter(lv, us[j + 1] if j + 1 < len(us) else None)
            u = self.mfind(m, g[0])
            if u is None: return z3.IntVal(0)
            lv.store(CMap([x for x in m.items if x[0] != u], m.kt, m.vt)); return z3.IntVal(1)
        if op == '=': lv.store(g[0]); return lv
        return NotImplemented
    def umap(self, sh, r, obj, vals):
        lv = self.lval(obj); m = lv.load()
        op = r.get('op')
        g = [self.rval(v) for v in vals]
        us = [u for u, _, _ in m.items]
        def put(key, val):
            u = self.newuid(); lv.store(CUMap(list(lv.load().items) + [(u, key, val)], m.kt, m.vt)); return u
        if sh == 'size': return z3.IntVal(len(us))
        if sh == 'empty': return z3.BoolVal(not us)
        if sh == 'clear': lv.store(CUMap([], m.kt, m.vt)); return None
        if sh in ('reserve', 'rehash'): return None
        if sh in ('begin', 'cbegin'): return MIter(lv, us[0] if us else None)
        if sh in ('end', 'cend'): return MIter(lv, None)
        if sh == 'find': return MIter(lv, self.mfind(m, g[0]))
        if sh == 'count': return z3.IntVal(0 if self.mfind(m, g[0]) is None else 1)
        if sh == 'operator[]':
            u = self.mfind(m, g[0])
            if u is None: u = put(g[0], self.value_construct(m.vt))
            return Sub(self, lv, ('n', u, 'second'))
        if sh == 'at':
            u = self.mfind(m, g[0])
            if u is None: self.on_abort('unordered_map::at'); raise ProgAbort()
            return Sub(self, lv, ('n', u, 'second'))
        if sh in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign'):
            hint = False
            if len(g) >= 2 and isinstance(g[0], MIter) and not isinstance(g[0], z3.ExprRef) and (len(g) == 3 or isinstance(g[1], Pair)): hint = True; g = g[1:]
            key, val = g if len(g) == 2 else (g[0].a, g[0].b)
            u = self.mfind(m, key); ok = u is None
            if ok: u = put(key, val)
            elif sh == 'insert_or_assign': Sub(self, lv, ('n', u, 'second')).store(val)
            return MIter(lv, u) if hint else Pair(MIter(lv, u), z3.BoolVal(ok))
        if sh == 'erase':
            u = g[0].uid if isinstance(g[0], MIter) else self.mfind(m, g[0])
            if isinstance(g[0], MIter) and (u is None or u not in us): self.oblige(False, 'erase of end or invalid iterator', 'safety'); raise PathEnd()
            if u is None: return z3.IntVal(0)
            lv.store(CUMap([x for x in m.items if x[0] != u], m.kt, m.vt))
            return z3.IntVal(1) if not isinstance(g[0], MIter) else MIter(lv, None)
        if op == '=': lv.store(g[0]); return lv
        return NotImplemented

    # ------------------------------------------------------------------ Eigen
    def entry(self, obj, i, j):
        if isinstance(obj, EView):
            a, b = cint(i), cint(j)
            if a is None or b is None: raise Unsupported('symbolic view index')
            if not (0 <= a < obj.r and 0 <= b < obj.c):
                self.oblige(False, 'matrix index in range', 'safety'); raise PathEnd()
            return EView1(obj, a, b)
        lv = self.lval(obj); m = lv.load()
        self.mat_bounds(m, i, j)
        return Sub(self, lv, ('e', self.conc(iv(i)), self.conc(iv(j))))
    def mat_bounds(self, m, i, j):
        self.oblige(z3.And(iv(i) >= 0, iv(i) < m.r, iv(j) >= 0, iv(j) < m.c), 'matrix index in range', 'safety')
    def vec_entry(self, obj, i):
        c = self.mat_cols(obj)
        cc = cint(c) if not isinstance(c, int) else c
        if cc == 1: return self.entry(obj, i, z3.IntVal(0))
        return self.entry(obj, z3.IntVal(0), i)
    def block_view(self, obj, i, j, r, c):
        """r, c concrete ints"""
        if isinstance(obj, EView):
            ci, cj = cint(i), cint(j)
            if ci is None or cj is None: raise Unsupported('symbolic block of view')
            if not (ci >= 0 and cj >= 0 and ci + r <= obj.r and cj + c <= obj.c): self.oblige(False, 'block in range', 'safety'); raise PathEnd()
            return EView(r, c, lambda a, b: obj.get(ci + a, cj + b), lambda a, b, x: obj.set(ci + a, cj + b, x), obj.base)
        lv = self.lval(obj); m = lv.load()
        i, j = iv(i), iv(j)
        self.oblige(z3.And(i >= 0, j >= 0, i + r <= m.r, j + c <= m.c), 'block in range', 'safety')
        ci, cj = self.conc(i), self.conc(j)
        return EView(r, c, lambda a, b: self.mat_get(lv.load(), self.conc(iv(ci + a)), self.conc(iv(cj + b))),
                     lambda a, b, x: lv.store(self.mat_set(lv.load(), self.conc(iv(ci + a)), self.conc(iv(cj + b)), x)), lv)
    def ci(self, v, what='size'):
        c = cint(self.rval(v))
        if c is None: raise Unsupported('symbolic ' + what)
        return c
    def assign(self, dst, m):
        """Eigen assignment with resize semantics for plain matrices"""
        if isinstance(m, Mat):
            if isinstance(dst, EView):
                if (dst.r, dst.c) != (m.r, m.c):
                    if dst.r * dst.c == m.r * m.c and 1 in (dst.r, dst.c) and 1 in (m.r, m.c): m = Mat(dst.r, dst.c, m.e)
                    else: self.oblige(False, 'matrix dimensions match in assignment', 'safety'); raise PathEnd()
            else:
                cur = dst.load()
                if isinstance(cur, Mat) and (cur.r, cur.c) != (m.r, m.c) and getattr(dst, 't', None) is None and False: pass
        dst.store(m)
    def zipm(self, a, b, f):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if (a.r, a.c) != (b.r, b.c): self.oblige(False, 'matrix dimensions match', 'safety'); raise PathEnd()
            return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])
        raise Unsupported('symbolic-size matrix arithmetic')
    def mapm(self, a, f):
        if isinstance(a, Mat): return Mat(a.r, a.c, [f(x) for x in a.e])
        raise Unsupported('symbolic-size matrix arithmetic')
    def eigen(self, sh, r, cls, obj, vals, e):
        op = r.get('op')
        if cls == 'Eigen::CommaInitializer':
            com = self.rval(obj) if not isinstance(obj, Comma) else obj
            if sh == 'operator,': self.comma(com, vals[0]); return com
            if sh == 'finished': return com.lv.load()
        if sh == 'operator<<' and obj is not None:
            com = Comma(obj if isinstance(obj, LV) else Root(obj)); self.comma(com, vals[0]); return com
        if sh == 'operator<<': return vals[0]
        if cls == 'Eigen::SolverBase' or cls.endswith('QR') or cls.endswith('LU') or cls.endswith('LT') or 'Decomposition' in cls or cls.endswith('SVD'):
            if sh == 'solve':
                s = self.rval(obj); return Lazy(s.A, self.M(vals[0]))
            if sh == 'compute':
                obj.store(Solver_(self.M(vals[0]), cls)); return obj
            raise Unsupported('solver ' + sh)
        if sh in SOLVERS: return Solver_(self.M(obj), sh)
        # static constructors
        if obj is None and sh in ('Zero', 'Ones', 'Constant', 'Identity', 'Unit', 'UnitX', 'UnitY', 'UnitZ', 'Random', 'LinSpaced'):
            return self.eig_static(sh, r, vals, e)
        if obj is None:
            return self.eigen_free(sh, r, vals)
        if sh in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
            g = [self.rval(v) for v in vals]
            if len(g) == 2: return self.entry(obj, g[0], g[1])
            return self.vec_entry(obj, g[0])
        if sh in ('x', 'y', 'z', 'w'):
            return self.vec_entry(obj, z3.IntVal('xyzw'.index(sh)))
        if sh in ('rows', 'cols', 'size', 'innerSize', 'outerSize'):
            a, b = self.mat_rows(obj), self.mat_cols(obj)
            a, b = iv(a), iv(b)
            if sh == 'rows': return a
            if sh == 'cols': return b
            if sh == 'size': return z3.simplify(a * b) if cint(b) is not None or cint(a) is not None else a * b
        if sh == 'data':
            return Ptr(obj if isinstance(obj, LV) else Root(obj), z3.IntVal(0))
        if sh == 'block':
            ta = r.get('targs') or []
            g = [self.rval(v) for v in vals]
            if len(g) == 2:
                br, bc = int(ta[0]['i']), int(ta[1]['i'])
            else: br, bc = self.ci(g[2], 'block size'), self.ci(g[3], 'block size')
            return self.block_view(obj, g[0], g[1], br, bc)
        if sh == 'row':
            c = self.mat_cols(obj); return self.block_view(obj, self.rval(vals[0]), z3.IntVal(0), 1, self.ci(iv(c), 'cols'))
        if sh == 'col':
            c = self.mat_rows(obj); return self.block_view(obj, z3.IntVal(0), self.rval(vals[0]), self.ci(iv(c), 'rows'), 1)
        if sh in ('segment', 'head', 'tail', 'middleRows', 'middleCols', 'topRows', 'leftCols', 'bottomRows', 'rightCols'):
            g = [self.rval(v) for v in vals]
            ta = [t for t in (r.get('targs') or []) if 'i' in t]
            fixed = int(ta[0]['i']) if ta and int(ta[0]['i']) > 0 else None
            n0 = None
            if sh == 'segment':
                st = g[0]; n = fixed if fixed is not None else self.ci(g[1])
                if isinstance(obj, EView) or cint(iv(self.mat_cols(obj))) == 1: return self.block_view(obj, st, z3.IntVal(0), n, 1) if cint(iv(self.mat_cols(obj))) == 1 else self.block_view(obj, z3.IntVal(0), st, 1, n)
                return self.block_view(obj, z3.IntVal(0), st, 1, n)
            n = fixed if fixed is not None else self.ci(g[0])
            R0, C0 = iv(self.mat_rows(obj)), iv(self.mat_cols(obj))
            if sh in ('head', 'tail'):
                col = cint(C0) == 1
                tot = R0 if col else C0
                st = z3.IntVal(0) if sh == 'head' else z3.simplify(tot - n)
                return self.block_view(obj, st, z3.IntVal(0), n, 1) if col else self.block_view(obj, z3.IntVal(0), st, 1, n)
            raise Unsupported('Eigen ' + sh)
        if sh == 'transpose':
            if isinstance(obj, EView): return EView(obj.c, obj.r, lambda a, b: obj.get(b, a), lambda a, b, x: obj.set(b, a, x), obj.base)
            m = self.M(obj)
            if isinstance(m, Mat): return Mat(m.c, m.r, [m.at(i, j) for j in range(m.c) for i in range(m.r)])
        if sh in ('noalias', 'eval', 'matrix', 'array', 'derived', 'const_cast_derived', 'self', 'const_derived'): return obj
        if sh in ('setZero', 'setConstant', 'setOnes', 'resize', 'conservativeResize', 'setIdentity'):
            g = [self.rval(v) for v in vals]
            return self.eig_set(sh, obj, g)
        if op == '=' or sh == 'operator=':
            m = vals[0]
            if isinstance(m, (LV, Lazy, Mat, SMat, Comma)): m = self.M(m)
            self.assign(obj, m); return obj
        if op in ('+=', '-=') and vals:
            a = self.M(obj); b = self.M(vals[0])
            self.assign(obj, self.zipm(a, b, (lambda x, y: x + y) if op == '+=' else (lambda x, y: x - y))); return obj
        if op in ('*=', '/=') and vals:
            k = self.rval(vals[0]); a = self.M(obj)
            if isinstance(k, z3.ArithRef):
                self.assign(obj, self.mapm(a, (lambda x: x * rv(k)) if op == '*=' else (lambda x: x / rv(k)))); return obj
        if op == '-' and not vals: return self.mapm(self.M(obj), lambda x: -x)
        if op in ('+', '-') and vals: return self.zipm(self.M(obj), self.M(vals[0]), (lambda x, y: x + y) if op == '+' else (lambda x, y: x - y))
        if op in ('*', '/') and vals:
            b = vals[0]
            if self.is_mat(b): return self.matmul(self.M(obj), self.M(b))
            k = rv(self.rval(b))
            return self.mapm(self.M(obj), (lambda x: x * k) if op == '*' else (lambda x: x / k))
        if op in ('==', '!='):
            a, b = self.M(obj), self.M(vals[0])
            q = z3.And([x == y for x, y in zip(a.e, b.e)]); return z3.simplify(q if op == '==' else z3.Not(q))
        if sh == 'dot':
            a, b = self.M(obj), self.M(vals[0]); return self.dotl(a.e, b.e)
        if sh in ('sum',): 
            a = self.M(obj); s = z3.RealVal(0)
            for x in a.e: s = s + x
            return s
        if sh == 'squaredNorm': a = self.M(obj); return self.dotl(a.e, a.e)
        if sh in ('cwiseProduct',): return self.zipm(self.M(obj), self.M(vals[0]), lambda x, y: x * y)
        if sh in ('norm',):
            a = self.M(obj); s = self.fresh('norm', R); self.add(z3.And(s >= 0, s * s == self.dotl(a.e, a.e))); return s
        if r.get('conv'):  # 1x1 product to scalar
            m = self.M(obj)
            if isinstance(m, Mat) and m.r == m.c == 1: return m.e[0]
        if sh == 'value':
            m = self.M(obj); return m.e[0]
        if r.get('dtor'): return None
        return NotImplemented
    def dotl(self, a, b):
        s = None
        for x, y in zip(a, b): s = x * y if s is None else s + x * y
        return s if s is not None else z3.RealVal(0)
    def matmul(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.c != b.r: self.oblige(False, 'matrix dimensions match in product', 'safety'); raise PathEnd()
            return Mat(a.r, b.c, [self.dotl([a.at(i, k) for k in range(a.c)], [b.at(k, j) for k in range(b.r)]) for i in range(a.r) for j in range(b.c)])
        raise Unsupported('symbolic-size product')
    def eigen_free(self, sh, r, vals):
        op = r.get('op')
        if op == '*' and len(vals) == 2:
            if not self.is_mat(vals[0]):
                k = rv(self.rval(vals[0])); return self.mapm(self.M(vals[1]), lambda x: k * x)
        if sh in ('conditional_aligned_malloc', 'conditional_aligned_free'): return None
        return NotImplemented
    def eig_static(self, sh, r, vals, e):
        ty = self.P.strip(r['cls'])
        # the class is DenseBase<Derived>/MatrixBase<Derived>
        t = self.P.T(ty)
        while t.get('name') != 'Eigen::Matrix':
            ty = self.P.strip(t['args'][0]['t']); t = self.P.T(ty)
        rr, cc = self.eig_dims(ty)
        g = [self.rval(v) for v in vals]
        ints = [x for x in g if isinstance(x, z3.ArithRef) and x.sort() == I]
        if rr < 0 or cc < 0:
            if len(ints) == 1: rr, cc = (self.ci(ints[0]), cc) if rr < 0 and cc >= 0 else (rr, self.ci(ints[0]))
            elif len(ints) >= 2: rr, cc = self.ci(ints[0]), self.ci(ints[1])
        if sh == 'Zero': return Mat(rr, cc, [z3.RealVal(0)] * (rr * cc))
        if sh == 'Ones': return Mat(rr, cc, [z3.RealVal(1)] * (rr * cc))
        if sh == 'Constant': return Mat(rr, cc, [rv(g[-1])] * (rr * cc))
        if sh == 'Identity': return Mat(rr, cc, [z3.RealVal(1 if i == j else 0) for i in range(rr) for j in range(cc)])
        if sh in ('UnitX', 'UnitY', 'UnitZ'):
            k = 'XYZ'.index(sh[-1]); return Mat(rr, cc, [z3.RealVal(1 if i == k else 0) for i in range(rr * cc)])
        raise Unsupported('Eigen ' + sh)
    def eig_set(self, sh, obj, g):
        ints = [x for x in g if isinstance(x, z3.ArithRef) and x.sort() == I]
        m = self.M(obj)
        rr, cc = m.r, m.c
        fill = z3.RealVal(0)
        if sh == 'setConstant': fill = rv(g[-1]); ints = ints[:len(g) - 1] if g and g[-1].sort() == I else ints
        if sh == 'setOnes': fill = z3.RealVal(1)
        if len(ints) == 1: rr = self.ci(ints[0]); cc = 1 if cc in (0, 1) else cc
        elif len(ints) == 2: rr, cc = self.ci(ints[0]), self.ci(ints[1])
        if sh == 'resize' or sh == 'conservativeResize':
            old = m
            if sh == 'resize' and (rr, cc) == (m.r, m.c): return None
            obj.store(Mat(rr, cc, [old.at(i, j) if sh == 'conservativeResize' and i < old.r and j < old.c else self.fresh('!uninit', R) for i in range(rr) for j in range(cc)])); return None
        if sh == 'setIdentity': obj.store(Mat(rr, cc, [z3.RealVal(1 if i == j else 0) for i in range(rr) for j in range(cc)])); return obj
        obj.store(Mat(rr, cc, [fill] * (rr * cc))); return obj
    def comma(self, com, x):
        lv = com.lv
        R0, C0 = (lv.r, lv.c) if isinstance(lv, EView) else (lv.load().r, lv.load().c)
        put = lv.set if isinstance(lv, EView) else (lambda a, b, y: lv.store(self.mat_set(lv.load(), a, b, y)))
        if self.is_mat(x):
            b = self.M(x)
        else: b = Mat(1, 1, [rv(self.rval(x))])
        if com.j == C0:
            com.i += com.bh; com.j = 0; com.bh = b.r
        if com.bh == 0: com.bh = b.r
        if com.i + b.r > R0 or com.j + b.c > C0:
            self.oblige(False, 'comma initializer fits the matrix', 'safety'); raise PathEnd()
        for i in range(b.r):
            for j in range(b.c): put(com.i + i, com.j + j, b.at(i, j))
        com.j += b.c

    def model_ctor(self, ty, fid, r, vals, e):
        t = self.P.T(ty); n = t.get('name', '')
        if t['k'] != 'rec': return NotImplemented
        if n == 'Eigen::Matrix':
            rr, cc = self.eig_dims(ty)
            if not vals: return self.symbolic(ty, '!uninit')
            if len(vals) == 1:
                v = vals[0]
                if self.is_mat(v) or isinstance(v, Comma): return self.M(v)
                x = self.rval(v)
                if isinstance(x, z3.ArithRef) and x.sort() == I and (rr < 0 or cc < 0):
                    return self.eig_alloc(ty, [x])
                if isinstance(x, Ptr): 
                    return Mat(rr, cc, [self.deref(Ptr(x.lv, z3.simplify(iv(x.idx) + k))).load() for k in range(rr * cc)]) if rr >= 0 and cc == 1 else self.uns('matrix from pointer')
            g = [self.rval(v) for v in vals]
            if rr < 0 or cc < 0: return self.eig_alloc(ty, g)
            if len(g) == rr * cc: return Mat(rr, cc, [rv(x) for x in g])
        if n == 'Eigen::Map':
            mt = self.P.strip(t['args'][0]['t']); rr, cc = self.eig_dims(mt)
            p = self.rval(vals[0]); ints = [self.rval(v) for v in vals[1:]]
            ints = [x for x in ints if isinstance(x, z3.ArithRef)]
            if rr < 0 and cc < 0: rr, cc = self.ci(ints[0]), self.ci(ints[1])
            elif rr < 0: rr = self.ci(ints[0])
            elif cc < 0: cc = self.ci(ints[0])
            rowmajor = len(t['args']) > 0 and int(self.P.T(mt)['args'][3]['i']) & 1
            def idx(a, b): return a * cc + b if rowmajor else a + b * rr
            base = p.lv
            off = p.idx if p.idx is not None else z3.IntVal(0)
            if p.lv is None: self.oblige(False, 'Map of null pointer', 'safety'); raise PathEnd()
            def lvof(a, b): return self.deref(Ptr(base, z3.simplify(off + idx(a, b))))
            return EView(rr, cc, lambda a, b: lvof(a, b).load(), lambda a, b, x: lvof(a, b).store(x), base)
        if n == 'Eigen::Ref':
            v = vals[0]
            if isinstance(v, EView): return v
            if isinstance(v, LV) and isinstance(v.load(), Mat):
                m = v.load()
                return EView(m.r, m.c, lambda a, b: self.mat_get(v.load(), a, b), lambda a, b, x: v.store(self.mat_set(v.load(), a, b, x)), v)
            m = self.M(v); return self.model_ctor(ty, fid, r, [Root(m)], e)
        if n.startswith('Eigen::'):
            if n in ('Eigen::Stride', 'Eigen::InnerStride', 'Eigen::OuterStride'): return Opaque('stride')
            if len(vals) == 1 and (self.is_mat(vals[0])):
                if n.endswith('QR') or n.endswith('LU') or n.endswith('LT') or 'Decomposition' in n or n.endswith('SVD'): return Solver_(self.M(vals[0]), n)
                return vals[0] if isinstance(vals[0], EView) else self.M(vals[0])
            if len(vals) == 1: return self.rval(vals[0])
        if n == 'std::vector':
            et = t['args'][0]['t']
            if not vals: return CVec([], et)
            v = self.rval(vals[0])
            if isinstance(v, (CVec, SVec)):
                if r.get('move') and isinstance(vals[0], LV): pass
                return v
            if isinstance(v, Arr): return CVec(v.e, et)
            if isinstance(v, (VIter, Ptr)) and len(vals) >= 2: return self.vec_range(et, v, self.rval(vals[1]))
            if isinstance(v, z3.ArithRef):
                second = self.rval(vals[1]) if len(vals) > 1 else None
                return self.vec_alloc(et, v, second if isinstance(second, (z3.ExprRef, Rec, Mat, Arr, CVec)) else None)
            if isinstance(v, Opaque): return CVec([], et)
        if n == 'std::array' and len(vals) == 1: return self.rval(vals[0])
        if n == 'std::array' and not vals: return self.symbolic(ty, '!uninit') if not e.get('zero') else self.zero(ty)
        if n in ('std::map', 'boost::unordered::unordered_map', 'boost::unordered_map', 'std::unordered_map'):
            if not vals: return self.default_lib(ty)
            v = self.rval(vals[0])
            if isinstance(v, CMap): return v
            return self.default_lib(ty)
        if n == 'std::pair':
            if not vals: return Pair(self.zero(t['args'][0]['t']), self.zero(t['args'][1]['t']))
            if len(vals) == 2: return Pair(self.rval(vals[0]), self.rval(vals[1]))
            if len(vals) == 1: return self.rval(vals[0])
        if 'iterator' in n or n.startswith('std::_Rb_tree') or n.startswith('__gnu_cxx::__normal_iterator') or n.startswith('boost::unordered'):
            if not vals: return MIter(None, None)
            v = self.rval(vals[0])
            if isinstance(v, (VIter, MIter, Ptr)):
                if n.startswith('std::reverse_iterator') and not r.get('copy') and not r.get('move'):
                    if isinstance(v, VIter) and not v.rev: return VIter(v.lv, v.i, True)
                return v
        if n.startswith('std::allocator') or n.startswith('verif_shim') or n.startswith('boost::math::policies') or 'lock_guard' in n or 'unique_lock' in n or 'scoped_lock' in n or n.startswith('std::basic_') or n.startswith('std::__cxx11::basic_') or n.startswith('std::runtime_error') or 'mutex' in n:
            return Opaque(n)
        if n.startswith('std::') and not vals: return Opaque(n)
        return NotImplemented
    def uns(self, w): raise Unsupported(w)
    def eig_alloc(self, ty, g):
        rr, cc = self.eig_dims(ty)
        ints = [x for x in g]
        if rr < 0 and cc < 0: rr, cc = self.ci(ints[0]), self.ci(ints[1])
        elif rr < 0: rr = self.ci(ints[0])
        else: cc = self.ci(ints[0])
        if rr * cc > 4000 or rr < 0 or cc < 0: raise Unsupported('huge matrix')
        return Mat(rr, cc, [self.fresh('!uninit', R) for _ in range(rr * cc)])
    def vec_alloc(self, et, n, fill):
        k = cint(n)
        if k is None: raise Unsupported('vector of symbolic size')
        if k > 100000:
            self.oblige(False, 'vector allocation of plausible size', 'safety'); raise PathEnd()
        return CVec([fill if fill is not None else self.value_construct(et) for _ in range(k)], et)

    # solve: x is a fresh vector with A x = b, provided the system is solvable
    def force(self, lz):
        A, b = lz.A, lz.b
        if isinstance(A, Mat) and isinstance(b, Mat):
            xs = [self.fresh('!x', R) for _ in range(A.c)]
            self.solvable(A, b)
            for i in range(A.r):
                s = None
                for j in range(A.c):
                    a = z3.simplify(A.at(i, j))
                    if z3.is_rational_value(a) and a.numerator_as_long() == 0: continue
                    term = a * xs[j] if not (z3.is_rational_value(a) and a.as_fraction() == 1) else xs[j]
                    s = term if s is None else s + term
                self.add_eq((s if s is not None else z3.RealVal(0)) == b.at(i, 0))
            lz_val = Mat(A.c, 1, xs)
            return lz_val
        raise Unsupported('solve with symbolic size')
    def add_eq(self, f):
        self.pc.append(f); self.solver.add(f)
    def solvable(self, A, b):
        """obligation: the linear system has a solution (square: non-zero determinant,
        otherwise full row rank at the generic point)"""
        if A.r == A.c and A.r <= 6:
            try:
                cv = Conv()
                d = det([[cv.poly(A.at(i, j)) for j in range(A.c)] for i in range(A.r)])
                self.oblige(poly_to_z3(d, cv) != 0, 'linear system is non-singular', 'solvable'); return
            except TooBig: pass
        self.rank_check(A)
    def rank_check(self, A):
        import random
        rng = random.Random(12345)
        cv = Conv(); vals = {}
        ok = False
        for attempt in range(3):
            vals = {}
            rows = []
            for i in range(A.r):
                row = []
                for j in range(A.c):
                    p = cv.poly(A.at(i, j)); s = Fraction(0)
                    for m, c in p.d.items():
                        x = c
                        for at, ex in m:
                            if at not in vals: vals[at] = Fraction(rng.randint(3, 25), 10)
                            x *= vals[at] ** ex
                        s += x
                    row.append(s)
                rows.append(row)
            if rank(rows) == A.r: ok = True; break
        self.oblige(bv(ok), 'constraint matrix has full row rank (generic durations)', 'solvable')

class EView1(LV):
    def __init__(s, view, i, j): s.view = view; s.i = i; s.j = j
    def load(s): return s.view.get(s.i, s.j)
    def store(s, x): s.view.set(s.i, s.j, x)
    def root(s): return s.view.root()

def is_zero(v): return is_num(v) and (v.as_long() == 0 if z3.is_int_value(v) else v.numerator_as_long() == 0)

def det(m):
    n = len(m)
    if n == 0: return Poly.const(1)
    if n == 1: return m[0][0]
    # expand along the row with most zeros
    i = max(range(n), key=lambda r: sum(1 for p in m[r] if not p.d))
    tot = Poly()
    for j in range(n):
        if not m[i][j].d: continue
        minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
        t = m[i][j] * det(minor)
        tot = tot + (t if (i + j) % 2 == 0 else -t)
    return tot
def poly_to_z3(p, cv):
    s = z3.RealVal(0)
    first = True
    for m, c in p.d.items():
        t = z3.RealVal(c)
        for at, e in m:
            for _ in range(e): t = t * cv.terms[at]
        s = t if first else s + t
        first = False
    return s
def rank(rows):
    rows = [list(r) for r in rows]; rk = 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        p = next((i for i in range(rk, len(rows)) if rows[i][c]), None)
        if p is None: continue
        rows[rk], rows[p] = rows[p], rows[rk]
        for i in range(rk + 1, len(rows)):
            if rows[i][c]:
                f = rows[i][c] / rows[rk][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[rk])]
        rk += 1
    return rk
