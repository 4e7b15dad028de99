"""Models of std::string, string streams and file streams over 'strings of parts': literal
characters, opaque non-empty fields without delimiters, and printed numbers.  Files live in a
ghost map from name to content.  Assumed: printing a number and parsing it back gives that number
(the native runs use numbers whose default six-digit text is exact)."""
from sx import *
from models import MVM

class SStr:
    __slots__ = ('p',)
    def __init__(s, p=()): s.p = tuple(p)
    def __repr__(s): return 'SStr%s' % (s.p,)
class Stream:
    def __init__(s, kind): s.kind = kind; s.buf = []; s.pos = 0; s.eof = False; s.bad = False; s.fname = None
STREAMS = {'std::basic_ifstream': 'fin', 'std::basic_ofstream': 'fout', 'std::basic_fstream': 'f', 'std::basic_istringstream': 'in', 'std::basic_ostringstream': 'out', 'std::basic_stringstream': 'io'}
STRN = ('std::basic_string', 'std::__cxx11::basic_string')
def base(n): return n.replace('__cxx11::', '')

class StrVM(MVM):
    def reset_path(self, prefix):
        super().reset_path(prefix); self.files = {}; self.nfield = 0
    def lit(self, s): return SStr([('c', c) for c in s])
    def tostr(self, v):
        v = self.rval(v)
        if isinstance(v, SStr): return v
        if isinstance(v, Opaque) and isinstance(v.what, str) and v.what.startswith('str:'): return self.lit(v.what[4:])
        if isinstance(v, Ptr) and v.lv is not None: return self.tostr(v.lv)
        return None
    def need(self, v):
        s = self.tostr(v)
        if s is None: raise Unsupported('string value')
        return s
    def default_lib(self, i):
        if base(self.P.T(i).get('name', '')) == 'std::basic_string': return SStr()
        return super().default_lib(i)
    def streq(self, a, b):
        if a.p == b.p: return z3.BoolVal(True)
        if len(a.p) == len(b.p) and all(x == y or (x[0] == 'n' and y[0] == 'n') for x, y in zip(a.p, b.p)):
            return z3.And([x[1] == y[1] for x, y in zip(a.p, b.p) if x[0] == 'n'])
        if all(x[0] == 'c' for x in a.p + b.p) or (not a.p) or (not b.p): return z3.BoolVal(False)
        return self.fresh('!streq', B)
    def parse(self, s):
        if len(s.p) == 1 and s.p[0][0] == 'n': return s.p[0][1]
        if all(x[0] == 'c' for x in s.p):
            try: return z3.RealVal(Fraction(float(''.join(x[1] for x in s.p))))
            except ValueError: return z3.RealVal(0)
        if len(s.p) == 1: return z3.Const('!num_' + str(s.p[0][1]), R)
        raise Unsupported('number in a composite string')
    def stream_of(self, v):
        while isinstance(v, Sub): v = v.p
        if isinstance(v, LV): v = v.load()
        return v if isinstance(v, Stream) else None
    def sopen(self, st, name, mode=None):
        f = self.need(name); key = f.p
        st.fname = key
        if st.kind == 'fin':
            if key not in self.files: st.bad = True; return
            st.buf = list(self.files[key]); st.pos = 0; st.eof = st.bad = False
        elif st.kind == 'fout':
            if not (mode is not None and cint(mode) is not None and cint(mode) & 1): self.files[key] = []
        else: raise Unsupported('fstream')
    def put(self, st, parts):
        if st.kind == 'fout':
            if st.fname is None: return
            self.files[st.fname] = self.files[st.fname] + list(parts)
        else: st.buf += list(parts)
    def getline(self, st, dst, delim):
        if st.eof or st.bad: st.bad = True; return
        out = []
        while True:
            if st.pos >= len(st.buf):
                st.eof = True
                if not out: st.bad = True
                break
            x = st.buf[st.pos]; st.pos += 1
            if x == ('c', delim): break
            out.append(x)
        dst.store(SStr(out))
    def num_part(self, v):
        if isinstance(v, z3.ArithRef) and v.sort() == R: return [('n', v)]
        c = cint(v)
        if c is not None: return [('c', ch) for ch in str(c)]
        return [('n', rv(v))]
    def insert(self, st, r, v):
        """operator<<(stream, v); type of the right operand decides"""
        pt = self.P.T(self.P.strip(r['ptypes'][-1]))
        x = self.rval(v)
        if isinstance(x, Opaque) and isinstance(x.what, tuple):
            nm = self.P.refs[x.what[1]]['short']
            if nm == 'endl': self.put(st, [('c', '\n')])
            elif nm in ('flush', 'fixed', 'defaultfloat'): pass
            else: raise Unsupported('manipulator ' + nm)
            return
        s = self.tostr(x)
        if s is not None: self.put(st, s.p); return
        if isinstance(x, Opaque) and isinstance(x.what, str) and x.what.startswith('setprecision:'): return
        if pt['k'] == 'builtin' and pt['name'] in ('char', 'signed char', 'unsigned char'):
            c = cint(x)
            if c is None: raise Unsupported('symbolic character')
            self.put(st, [('c', chr(c % 256))]); return
        if isinstance(x, z3.ArithRef): self.put(st, self.num_part(x)); return
        raise Unsupported('stream insertion of ' + pt['s'])

    def model(self, fid, r, name, cls, obj, vals, e):
        sh = r['short']; b = base(cls)
        if name == 'vf::field':
            nonempty = cint(self.rval(vals[1]))
            self.nfield += 1
            k = 0 if nonempty else self.choose(2)
            v = self.fresh('in_field_empty', I); self.add(v == k); self.nsym.append((str(v)[3:], v, None, None))
            vals[0].store(SStr() if k else SStr([('f', self.nfield)])); return None
        if name == 'vf::file': return self.lit('file%d' % cint(self.rval(vals[0])))
        if name == 'vf::same':
            self.oblige(self.streq(self.need(vals[1]), self.need(vals[2])), self.tostr(vals[0]) and ''.join(x[1] for x in self.tostr(vals[0]).p)); return None
        st = self.stream_of(obj) if obj is not None else (self.stream_of(vals[0]) if vals else None)
        if st is not None and (name.startswith('std::')):
            me = obj if obj is not None else vals[0]
            rest = vals if obj is not None else vals[1:]
            if sh == 'operator<<': self.insert(st, r, rest[0]); return me
            if sh == 'getline' and obj is None:
                d = chr(cint(self.rval(rest[1]))) if len(rest) > 1 else '\n'
                self.getline(st, rest[0], d); return me
            if sh == 'operator>>':
                if st.eof or st.bad: st.bad = True; return me
                if st.pos < len(st.buf) and st.buf[st.pos][0] == 'n' and isinstance(rest[0].load(), z3.ArithRef):
                    rest[0].store(st.buf[st.pos][1]); st.pos += 1; st.eof = st.pos >= len(st.buf); return me
                raise Unsupported('stream extraction')
            if sh in ('good',): return bv(not st.eof and not st.bad)
            if sh == 'fail' or sh == 'operator!': return bv(st.bad)
            if sh == 'bad': return bv(False)
            if sh == 'eof': return bv(st.eof)
            if sh == 'operator bool': return bv(not st.bad)
            if sh == 'is_open': return bv(st.fname is not None and not st.bad)
            if sh == 'open': self.sopen(st, rest[0], self.rval(rest[1]) if len(rest) > 1 else None); return None
            if sh == 'close': return None
            if sh == 'clear': st.eof = st.bad = False; return None
            if sh == 'flush': return me
            if sh == 'peek':
                if st.pos >= len(st.buf): st.eof = True; return z3.IntVal(-1)
                if st.buf[st.pos][0] == 'c': return z3.IntVal(ord(st.buf[st.pos][1]))
                raise Unsupported('peek')
            if sh == 'str':
                if rest: st.buf = list(self.need(rest[0]).p); st.pos = 0; return None
                return SStr(st.buf)
            if sh == 'precision' and rest:
                c = cint(self.rval(rest[0]))
                if c is None or c < 6: raise Unsupported('low printing precision')
                return z3.IntVal(6)
            if sh == 'setf': return z3.IntVal(0)
            raise Unsupported('stream operation ' + sh)
        if name == 'std::setprecision':
            c = cint(self.rval(vals[0]))
            if c is None or c < 6: raise Unsupported('low printing precision')
            return Opaque('setprecision:')
        if b == 'std::basic_string':
            o = obj; s = self.need(obj)
            if sh in ('c_str', 'data', 'str'): return s
            if sh == 'operator=':
                v = self.rval(vals[0])
                if isinstance(v, z3.ArithRef): v = SStr([('c', chr(cint(v)))])
                o.store(self.need(v)); return o
            if sh in ('operator+=', 'append', 'push_back') and len(vals) == 1:
                v = self.rval(vals[0])
                o.store(SStr(s.p + ((('c', chr(cint(v))),) if isinstance(v, z3.ArithRef) else self.need(v).p))); return o
            if sh == 'empty': return bv(not s.p)
            if sh == 'clear': o.store(SStr()); return None
            if sh in ('size', 'length') and all(x[0] == 'c' for x in s.p): return z3.IntVal(len(s.p))
            if sh in ('reserve', 'shrink_to_fit'): return None
            if sh == 'swap':
                a = vals[0].load(); vals[0].store(s); o.store(a); return None
            if sh in ('back', 'front') and s.p:
                x = s.p[-1 if sh == 'back' else 0]
                if x[0] == 'c': return Root(z3.IntVal(ord(x[1])))
            raise Unsupported('string ' + sh)
        if name in ('std::operator==', 'std::operator!=', 'std::operator+') and len(vals) == 2:
            ca = self.tostr(vals[0]); cb = self.tostr(vals[1])
            if ca is not None or cb is not None:
                def one(c, v):
                    if c is not None: return c
                    v = self.rval(v)
                    if isinstance(v, z3.ArithRef) and cint(v) is not None: return SStr([('c', chr(cint(v)))])
                    raise Unsupported('string operand')
                ca, cb = one(ca, vals[0]), one(cb, vals[1])
                if sh == 'operator+': return SStr(ca.p + cb.p)
                q = self.streq(ca, cb)
                return q if sh == 'operator==' else z3.Not(q)
        if name in ('atof', 'strtod', 'std::stod', 'std::atof', 'std::strtod', 'std::stof') or (name.endswith('::stod')):
            return self.parse(self.need(vals[0]))
        if base(name) == 'std::to_string': return SStr(self.num_part(self.rval(vals[0])))
        return super().model(fid, r, name, cls, obj, vals, e)
    def model_ctor(self, ty, fid, r, vals, e):
        n = base(self.P.T(ty)['name'])
        if n == 'std::basic_string':
            if not vals: return SStr()
            s = self.tostr(vals[0])
            if s is not None: return s
            v = self.rval(vals[0])
            if isinstance(v, z3.ArithRef) and len(vals) >= 2 and cint(v) is not None and cint(self.rval(vals[1])) is not None: return SStr([('c', chr(cint(self.rval(vals[1]))))] * cint(v))
            if isinstance(v, Opaque): return SStr()
            raise Unsupported('string constructor')
        if n in STREAMS:
            st = Stream(STREAMS[n])
            if vals:
                if st.kind in ('fin', 'fout', 'f'): self.sopen(st, vals[0], self.rval(vals[1]) if len(vals) > 1 else None)
                else:
                    s = self.tostr(vals[0])
                    if s is not None: st.buf = list(s.p)
            return st
        return super().model_ctor(ty, fid, r, vals, e)
