"""Contracts for the code generated for a schema, and the unit in which it is verified (C02, C03, C04).

For every struct and choice of the schema the layout the documentation gives is written down as a
specification function over the generated message type, and the generated functions get contracts in
terms of it. The generated code itself is what the program of the current tree writes.
"""
import os, re
import gencode, extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM = ('Unit', 'F64', 'U64', 'S64', 'Bool', 'Bytes', 'String')
FLAT = ('U64', 'S64', 'Bool', 'F64')     # elements without a size in front
KEYWORDS = {'type', 'match', 'loop', 'fn', 'ref', 'box'}


def words(n):
    return [w for w in re.split('_', re.sub(r'([A-Z])', r'_\1', n)) if w]


def pascal(n):
    return ''.join(w[:1].upper() + w[1:].lower() for w in words(n))


def member(n):
    return n + '_' if n in KEYWORDS else n


def out_ty(t, side='Out'):
    k = t[0]
    return {'Unit': '()', 'F64': 'f64', 'U64': 'u64', 'S64': 'i64', 'Bool': 'bool', 'Bytes': 'Vec<u8>', 'String': 'String'}.get(k) or \
        ('Vec<%s>' % out_ty(t[1], side) if k == 'Arr' else pascal(t[2]) + side)


def listed(t):
    """an array whose atlas lists the atlases of its elements"""
    return t[0] == 'Arr' and t[1][0] not in FLAT and t[1][0] != 'Unit'


def atlas_ty(t):
    if t[0] == 'Decl':
        return pascal(t[2]) + 'Atlas'
    return '(usize, Vec<%s>)' % atlas_ty(t[1]) if listed(t) else 'usize'


def key(t):
    return 'A' + key(t[1]) if t[0] == 'Arr' else t[2] if t[0] == 'Decl' else {'String': 'Str'}.get(t[0], t[0])


def varint_mode(t):
    return 'true' if t[0] in ('U64', 'S64', 'Bool') else 'false'


class Writer:
    """specification of the bytes of the types of one file"""

    def __init__(self, decls):
        self.decls = decls
        self.arrays = {}
        for d in decls:
            for f in d['fields']:
                self.see(f[2])

    def see(self, t):
        if t[0] == 'Arr':
            if t[1][0] != 'Unit':
                self.see(t[1])
                self.arrays.setdefault(key(t), t)

    def enc(self, t, x, field):
        """bytes of the value x (an expression of the Rust type of t)"""
        k = t[0]
        if k == 'Unit':
            return 'Seq::<u8>::empty()'
        if k == 'F64':
            return ('f_f64(fbits(%s))' if field else 'le8(fbits(%s))') % x
        if k in ('U64', 'S64', 'Bool'):
            n = {'U64': '%s', 'S64': 'zigzag(%s)', 'Bool': '(if %s { 1u64 } else { 0u64 })'}[k] % x
            return ('f_u64(%s)' if field else 'encoded(%s)') % n
        if k == 'Bytes':
            return '%s@' % x
        if k == 'String':
            return 'utf8(%s@)' % x
        if k == 'Decl':
            return 'enc_%s(%s)' % (t[2], x)
        if t[1][0] == 'Unit':
            return ('f_u64(%s@.len() as u64)' if field else 'encoded(%s@.len() as u64)') % x
        return 'n_%s(%s@, %s@.len() as int)' % (key(t), x, x)

    def rel(self, t, x, a, field):
        """the atlas a belongs to the value x"""
        if listed(t):
            return 'rel_%s(%s, %s)' % (key(t), x, a)
        if t[0] == 'Decl':
            return 'rel_%s(%s, %s)' % (t[2], x, a)
        return '%s == %s.len()' % (a, self.enc(t, x, field))

    def size(self, t, a):
        return a + '.0' if listed(t) else 'sz_%s(%s)' % (t[2], a) if t[0] == 'Decl' else a

    def specs(self, atlas=True):
        o = []
        for k, t in self.arrays.items():
            e = t[1]
            x = 's[n - 1]'
            o.append('pub open spec fn n_%s(s: Seq<%s>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { n_%s(s, n - 1) + %s } }' % (
                k, out_ty(e), k, self.enc(e, x, False) if e[0] in FLAT else 'item(%s)' % self.enc(e, x, False)))
            o.append('pub proof fn grows_%s(s: Seq<%s>, n: int, m: int) requires 0 <= n <= m ensures n_%s(s, n).len() <= n_%s(s, m).len() decreases m { if n < m { grows_%s(s, n, m - 1); } }' % (
                k, out_ty(e), k, k, k))
            if e[0] in ('F64', 'Bool'):
                o.append('pub proof fn long_%s(s: Seq<%s>, n: int) requires 0 <= n ensures n_%s(s, n).len() == %d * n decreases n { if n > 0 { long_%s(s, n - 1); lemma_width(0); lemma_width(1); } }' % (k, out_ty(e), k, 8 if e[0] == 'F64' else 1, k))
            if listed(t) and atlas:
                o.append('pub open spec fn rel_%s(x: %s, a: %s) -> bool { &&& a.0 == n_%s(x@, x@.len() as int).len() &&& a.1@.len() == x@.len() &&& forall|i: int| 0 <= i < x@.len() ==> rel_el_%s(x@[i], #[trigger] a.1@[i]) }' % (
                    k, out_ty(t), atlas_ty(t), k, k))
                o.append('pub open spec fn rel_el_%s(x: %s, a: %s) -> bool { %s }' % (
                    k, out_ty(e), atlas_ty(e), self.rel(e, 'x', 'a', False)))
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            if d['choice']:
                arms, rels, szs = [], [], []
                for n, rule, t, i in d['fields']:
                    C = pascal(n)
                    unit = t[0] == 'Unit'
                    vs = ([] if unit else ['p']) + ([] if rule == 0 else ['fb'])
                    pat = '%sOut::%s' % (P, C) + ('(%s)' % ', '.join(vs) if vs else '')
                    e = 'one(%d, %s, %s)' % (i, varint_mode(t), self.enc(t, 'p', True)) + ('' if rule == 0 else ' + enc_%s(*fb)' % D)
                    arms.append('%s => %s,' % (pat, e))
                    apat = '%sAtlas::%s(%s)' % (P, C, ', '.join(['size', 'pa'] + ([] if rule == 0 else ['fa'])))
                    rels.append('(%s, %s) => size == enc_%s(x).len() && %s%s,' % (pat, apat, D, 'pa == 0' if unit else self.rel(t, 'p', 'pa', True), '' if rule == 0 else ' && rel_%s(*fb, *fa)' % D))
                    szs.append('%s => size,' % apat)
                o.append('pub open spec fn enc_%s(x: %sOut) -> Seq<u8> decreases x { match x { %s } }' % (D, P, ' '.join(arms)))
                if not atlas:
                    continue
                o.append('pub open spec fn rel_%s(x: %sOut, a: %sAtlas) -> bool decreases x { match (x, a) { %s _ => false } }' % (D, P, P, ' '.join(rels)))
                o.append('pub open spec fn sz_%s(a: %sAtlas) -> usize { match a { %s } }' % (D, P, ' '.join(szs)))
            else:
                # pre_D_k: the bytes of the first k fields
                rels = ['a._size == enc_%s(x).len()' % D]
                o.append('#[verifier::opaque] pub open spec fn pre_%s_0(x: %sOut) -> Seq<u8> { Seq::empty() }' % (D, P))
                for j, (n, rule, t, i) in enumerate(d['fields']):
                    m = member(n)
                    o.append('#[verifier::opaque] pub open spec fn pre_%s_%d(x: %sOut) -> Seq<u8> { pre_%s_%d(x) + %s }' % (D, j + 1, P, D, j, self.part(d, j, 'x')))
                    rels.append('(match (x.%s, a.%s) { (Some(p), Some(q)) => %s, (None, None) => true, _ => false })' % (m, m, self.rel(t, 'p', 'q', True)) if rule == 2
                                else self.rel(t, 'x.' + m, 'a.' + m, True))
                N = len(d['fields'])
                o.append('#[verifier::opaque] pub open spec fn enc_%s(x: %sOut) -> Seq<u8> { pre_%s_%d(x) }' % (D, P, D, N))
                o.append('pub proof fn lens_%s(x: %sOut) ensures enc_%s(x) == pre_%s_%d(x), pre_%s_0(x) == Seq::<u8>::empty() %s {\n %s reveal(enc_%s); reveal(pre_%s_0); %s }' % (
                    D, P, D, D, N, D, ''.join(', pre_%s_%d(x).len() == pre_%s_%d(x).len() + (%s).len()' % (D, j + 1, D, j, self.part(d, j, 'x')) for j in range(N)), 'hide(header);' if N else '', D, D,
                    ' '.join('assert(pre_%s_%d(x).len() == pre_%s_%d(x).len() + (%s).len()) by { reveal(pre_%s_%d); }' % (D, j + 1, D, j, self.part(d, j, 'x'), D, j + 1) for j in range(N))))
                if not atlas:
                    continue
                o.append('pub open spec fn rel_%s(x: %sOut, a: %sAtlas) -> bool { %s }' % (D, P, P, ' && '.join(rels)))
                o.append('pub open spec fn sz_%s(a: %sAtlas) -> usize { a._size }' % (D, P))
        return o

    def part(self, d, j, x):
        n, rule, t, i = d['fields'][j]
        m = member(n)
        e = 'one(%d, %s, %s)' % (i, varint_mode(t), self.enc(t, 'p' if rule == 2 else x + '.' + m, True))
        return '(match %s.%s { Some(p) => %s, None => Seq::<u8>::empty() })' % (x, m, e) if rule == 2 else e

    def long(self, t, x):
        """arrays of floating-point numbers are as long as eight times their elements"""
        return 'long_%s(%s@, %s@.len() as int);' % (key(t), x, x) if t[0] == 'Arr' and t[1][0] == 'F64' else ''

    def longs(self, d):
        r = []
        for n, rule, t, i in d['fields']:
            if self.long(t, 'p'):
                if d['choice']:
                    r.append('if let %sOut::%s(p%s) = self { %s }' % (pascal(d['name']), pascal(n), '' if rule == 0 else ', fb', self.long(t, 'p')))
                elif rule == 2:
                    r.append('if let Some(p) = &self.%s { %s }' % (member(n), self.long(t, 'p')))
                else:
                    r.append(self.long(t, 'self.' + member(n)))
        return ' '.join(r)

    # -- loops, in the order in which the extraction numbers them ------------------------------------
    def atlas_loops(self, fn, t, st, o):
        if t[0] != 'Arr' or t[1][0] == 'Unit' or t[1][0] == 'F64':
            return
        e, k = t[1], key(t)
        me = st['chain']
        st['chain'] += 1
        if listed(t):
            o.append('@@ fn %s loop chain%d inv\n    invariant $OUT@.len() == $I, forall|i: int| 0 <= i < $I ==> rel_el_%s($IT@[i], #[trigger] $OUT@[i]), n_%s($IT@, $IT@.len() as int).len() <= usize::MAX' % (fn, me, k, k))
            o.append('@@ fn %s loop chain%d start\n    proof { lemma_sizes(); grows_%s($IT@, $I as int + 1, $IT@.len() as int); %s }' % (fn, me, k, self.long(e, '$IT@[$I as int]')))
            self.atlas_loops(fn, e, st, o)
            me = st['chain']
            st['chain'] += 1
            o.append('@@ fn %s loop chain%d inv\n    invariant $OUT == n_%s(payload@, $I as int).len(), $IT@.len() == payload@.len(), forall|i: int| 0 <= i < $IT@.len() ==> rel_el_%s(payload@[i], #[trigger] $IT@[i]), n_%s(payload@, payload@.len() as int).len() <= usize::MAX' % (fn, me, k, k, k))
            o.append('@@ fn %s loop chain%d start\n    proof { lemma_sizes(); grows_%s(payload@, $I as int + 1, payload@.len() as int); assert(rel_el_%s(payload@[$I as int], $IT@[$I as int])); }' % (fn, me, k, k))
        else:
            o.append('@@ fn %s loop chain%d inv\n    invariant $OUT == n_%s($IT@, $I as int).len(), n_%s($IT@, $IT@.len() as int).len() <= usize::MAX' % (fn, me, k, k))
            o.append('@@ fn %s loop chain%d start\n    proof { lemma_sizes(); grows_%s($IT@, $I as int + 1, $IT@.len() as int); lemma_width(0); lemma_width(1); }' % (fn, me, k))

    def writer_loops(self, fn, t, st, o):
        if t[0] != 'Arr' or t[1][0] == 'Unit':
            return
        e, k = t[1], key(t)
        me = st['loop']
        st['loop'] += 1
        o.append('@@ fn %s loop %d pre\n    let ghost w%d = writer.written(); ' % (fn, me, me))
        inv = ['writer.written() =~= w%d + n_%s($IT@, $I as int)' % (me, k), 'writer.sound() == old(writer).sound()', 'n_%s($IT@, $IT@.len() as int).len() <= usize::MAX' % k]
        if listed(t):
            jt = '__jt%d' % me
            inv += ['%s@.len() == $IT@.len()' % jt, 'forall|i: int| 0 <= i < $IT@.len() ==> rel_el_%s($IT@[i], #[trigger] %s@[i])' % (k, jt)]
            o.append('@@ fn %s loop %d start\n    proof { lemma_sizes(); grows_%s($IT@, $I as int + 1, $IT@.len() as int); assert(rel_el_%s($IT@[$I as int], %s@[$I as int])); }' % (fn, me, k, k, jt))
        else:
            o.append('@@ fn %s loop %d start\n    proof { lemma_sizes(); grows_%s($IT@, $I as int + 1, $IT@.len() as int); }' % (fn, me, k))
        o.append('@@ fn %s loop %d inv\n    invariant %s' % (fn, me, ', '.join(inv)))
        self.writer_loops(fn, e, st, o)

    def contracts(self):
        o = []
        attr = '#[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]'
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            fn = 'm::%sOut::atlas' % P
            o.append('@@ fn %s attr\n    %s' % (fn, attr))
            o.append('@@ fn %s ret r\n    requires enc_%s(*self).len() <= usize::MAX ensures rel_%s(*self, r)' % (fn, D, D))
            ex = ''.join('long_%s(%s@, %s@.len() as int); ' % (k, x, x) for k, x in [])
            hides = 'hide(encoded); hide(le8); hide(header);' if d['fields'] else ''
            F = [] if d['choice'] else d['fields']
            o.append('@@ fn %s entry\n    %s proof { lemma_sizes(); %s %s }' % (fn, hides, '' if d['choice'] else 'lens_%s(*self);' % D, self.longs(d)))
            st = {'chain': 0, 'loop': 0}
            for n, rule, t, i in d['fields']:
                self.atlas_loops(fn, t, st, o)
            fn = 'm::%sAtlas::size' % P
            o.append('@@ fn %s ret r\n    ensures r == sz_%s(*self)' % (fn, D))
            fn = 'm::super::Serializefor%sOut::size' % P
            o.append('@@ fn %s ret r\n    requires enc_%s(*self).len() <= usize::MAX ensures r == enc_%s(*self).len()' % (fn, D, D))
            # a writer taken by value is a reference to a writer
            fn = 'm::super::Serializefor%sOut::serialize' % P
            o.append('@@ fn %s sig\n    mut writer: T\\b ==> writer: &mut T' % fn)
            o.append('@@ fn %s subst\n    &mut writer\\b ==> &mut *writer' % fn)
            o.append('@@ fn %s ret r\n    requires enc_%s(*self).len() <= usize::MAX ensures r is Ok ==> final(writer).written() == old(writer).written() + enc_%s(*self), final(writer).sound() == old(writer).sound(), old(writer).sound() ==> r is Ok' % (fn, D, D))
            fn = 'm::%sOut::serialize_with_atlas' % P
            o.append('@@ fn %s attr\n    %s' % (fn, attr))
            o.append('@@ fn %s ret r\n    requires enc_%s(*self).len() <= usize::MAX, rel_%s(*self, *atlas)\n    ensures r is Ok ==> final(writer).written() == old(writer).written() + enc_%s(*self), final(writer).sound() == old(writer).sound(), old(writer).sound() ==> r is Ok' % (fn, D, D, D))
            o.append('@@ fn %s entry\n    %s proof { lemma_sizes(); %s }' % (fn, hides, 'lemma_assoc();' if d['choice'] else 'lens_%s(*self); lemma_none(writer.written());' % D))
            for j, f in enumerate(F):
                m = member(f[0])
                pat = (r'if let \(Some\(payload\), Some\(payload_atlas\)\) = \(&self\.(r#)?%s,' if f[1] == 2 else r'\{ let payload = &self\.(r#)?%s;') % f[0]
                n, rule, t, i = f
                x = 'self.' + m
                W = 'old(writer).written()'
                call = lambda x: 'lemma_chain(%s, pre_%s_%d(*self), header(%d, (%s).len() as usize, %s), %s);' % (W, D, j, i, self.enc(t, x, True), varint_mode(t), self.enc(t, x, True))
                how = 'match %s { Some(p) => { %s } None => { lemma_none(pre_%s_%d(*self)); } }' % (x, call('p'), D, j) if rule == 2 else call(x)
                o.append('@@ fn %s after %s\n    proof { assert(pre_%s_%d(*self) == pre_%s_%d(*self) + %s) by { reveal(pre_%s_%d); } assert(writer.written() == %s + pre_%s_%d(*self)) by { %s } }' % (
                    fn, pat, D, j + 1, D, j, self.part(d, j, 'self'), D, j + 1, W, D, j + 1, how))
            for n, rule, t, i in d['fields']:
                self.writer_loops(fn, t, st, o)
        return o

    # -- reading ---------------------------------------------------------------------------------------
    def mty(self, t):
        """the type of what a value stands for"""
        k = t[0]
        return {'Unit': '()', 'F64': 'u64', 'U64': 'u64', 'S64': 'i64', 'Bool': 'bool', 'Bytes': 'Seq<u8>', 'String': 'Seq<char>'}.get(k) or \
            ('M' + pascal(t[2]) if k == 'Decl' else 'int' if t[1][0] == 'Unit' else 'Seq<%s>' % self.mty(t[1]))

    def mv(self, t, x):
        """what the value x of the type read stands for"""
        k = t[0]
        return {'Unit': '()', 'F64': 'fbits(%s)' % x, 'U64': x, 'S64': x, 'Bool': x, 'Bytes': x + '@', 'String': x + '@'}.get(k) or \
            ('m_%s(%s)' % (t[2], x) if k == 'Decl' else '%s@.len() as int' % x if t[1][0] == 'Unit' else 'm_%s(%s@)' % (key(t), x))

    def fgot(self, t, size, w):
        k = t[0]
        if k == 'Unit':
            return 'Got::Is((), 0)'
        if k == 'Arr':
            return 'got_units(gf_u64(%s, %s))' % (size, w) if t[1][0] == 'Unit' else 'ga_%s(%s)' % (key(t), w)
        return {'F64': 'gf_f64(%s, %s)' % (size, w), 'U64': 'gf_u64(%s, %s)' % (size, w), 'S64': 'got_s64(gf_u64(%s, %s))' % (size, w), 'Bool': 'got_bool(gf_u64(%s, %s))' % (size, w),
                'Bytes': 'g_bytes(%s)' % w, 'String': 'g_text(%s)' % w}.get(k) or 'upto(dec_%s(%s), %s)' % (t[2], w, w)

    def egot(self, t, w):
        k = t[0]
        if k == 'Arr' and t[1][0] == 'Unit':
            return 'got_units(ge_u64(%s))' % w
        return {'F64': 'ge_f64(%s)' % w, 'U64': 'ge_u64(%s)' % w, 'S64': 'got_s64(ge_u64(%s))' % w, 'Bool': 'got_bool(ge_u64(%s))' % w}.get(k) or self.fgot(t, '0', w)

    # what the specification leaves open for the TypeScript code (tsmsg) and not for the Rust code
    CUT = ''

    def cut(self, cond, then):
        return then

    def in_ty(self, t):
        return out_ty(t, 'In')

    def read_specs(self):
        o = []
        for k, t in self.arrays.items():
            e = t[1]
            M = 'Seq<%s>' % self.mty(e)
            o.append('pub open spec fn m_%s(s: Seq<%s>) -> %s { Seq::new(s.len(), |i: int| %s) }' % (k, self.in_ty(e), M, self.mv(e, 's[i]')))
            o.append('pub proof fn more_%s() ensures forall|s: Seq<%s>, x: %s| #[trigger] m_%s(s.push(x)) == m_%s(s).push(%s), m_%s(Seq::empty()) == %s::empty() { assert forall|s: Seq<%s>, x: %s| #[trigger] m_%s(s.push(x)) == m_%s(s).push(%s) by { assert(m_%s(s.push(x)) =~= m_%s(s).push(%s)); } assert(m_%s(Seq::empty()) =~= %s::empty()); }' % (
                k, self.in_ty(e), self.in_ty(e), k, k, self.mv(e, 'x'), k, M.replace('<', '::<', 1), self.in_ty(e), self.in_ty(e), k, k, self.mv(e, 'x'), k, k, self.mv(e, 'x'), k, M.replace('<', '::<', 1)))
            if listed(t):
                step = ('if !whole(w) { if w.len() == 0 { Got::Is(acc, 0) } else { Got::Any } } else { let n = decoded(w.take(reach(w[0]))) as usize; let rest = w.skip(reach(w[0])); let b = bounded(rest, n); '
                        '%s }') % self.cut('n > rest.len()', 'match %s { Got::Is(v, u) => if 0 <= u <= b.len() { gl_%s(rest.skip(u), acc.push(v)) } else { Got::Any }, Got::Bad => Got::Bad, Got::Any => Got::Any }' % (self.egot(e, 'b'), k))
            else:
                step = 'match %s { Got::Is(v, u) => if 0 < u <= w.len() { gl_%s(w.skip(u), acc.push(v)) } else { Got::Any }, _ => if w.len() == 0 { Got::Is(acc, 0) } else { Got::Any } }' % (self.egot(e, 'w'), k)
            o.append('pub open spec fn gl_%s(w: Seq<u8>, acc: %s) -> Got<%s> decreases w.len() { %s }' % (k, M, M, step))
            o.append('pub open spec fn ga_%s(w: Seq<u8>) -> Got<%s> { upto(gl_%s(w, Seq::empty()), w) }' % (k, M, k))
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            if d['choice']:
                cs, vs, arms = [], [], []
                for n, rule, t, i in d['fields']:
                    C = pascal(n)
                    unit = t[0] == 'Unit'
                    cs.append(C + ('(%s)' % ', '.join(([] if unit else [self.mty(t)]) + (['Box<M%s>' % P] if rule == 2 else [])) if not unit or rule == 2 else ''))
                    pat = ([] if unit else ['p']) + (['fb'] if rule == 2 else [])
                    val = ([] if unit else [self.mv(t, 'p')]) + (['Box::new(m_%s(*fb))' % D] if rule == 2 else [])
                    br = lambda l: '(%s)' % ', '.join(l) if l else ''
                    vs.append('%sIn::%s%s => M%s::%s%s,' % (P, C, br(pat), P, C, br(val)))
                    done = 'M%s::%s%s' % (P, C, br(([] if unit else ['v']) + (['Box::new(fb)'] if rule == 2 else [])))
                    yes = 'Got::Is(%s, 0)' % done if rule != 2 else 'match dec_%s(rest.skip(u)) { Got::Is(fb, _) => Got::Is(%s, 0), Got::Bad => Got::Bad, Got::Any => Got::Any }' % (D, done)
                    arms.append('if i == %d { match %s { Got::Is(v, u) => if 0 <= u <= b.len() { %s } else { Got::Any }, Got::Bad => Got::Bad, Got::Any => Got::Any } } else' % (i, self.fgot(t, 'size', 'b'), yes))
                o.append('pub enum M%s { %s }' % (P, ', '.join(cs)))
                o.append('pub open spec fn m_%s(x: %sIn) -> M%s decreases x { match x { %s } }' % (D, P, P, ' '.join(vs)))
                body = '{ match heading(s) { None => Got::Bad, Some((i, size, rest)) => if rest.len() >= s.len()' + self.CUT + ' { Got::Any } else { let b = bounded(rest, size); %s if size <= rest.len() { dec_%s(rest.skip(size as int)) } else { Got::Any } } } }' % (' '.join(arms), D)
                o.append('pub open spec fn dec_%s(s: Seq<u8>) -> Got<M%s> decreases s.len() %s' % (D, P, body))
                o.append('pub proof fn once_%s(s: Seq<u8>) ensures dec_%s(s) == (%s) { hide(heading); }' % (D, D, body))
            else:
                F = d['fields']
                o.append('pub struct M%s { %s }' % (P, ', '.join('pub %s: %s' % (member(n), self.mty(t) if rule == 0 else 'Option<%s>' % self.mty(t)) for n, rule, t, i in F)))
                o.append('pub struct S%s { %s }' % (P, ', '.join('pub %s: Option<%s>' % (member(n), self.mty(t)) for n, rule, t, i in F)))
                o.append('pub open spec fn m_%s(x: %sIn) -> M%s { M%s { %s } }' % (D, P, P, P, ', '.join('%s: %s' % (member(n), self.mv(t, 'x.' + member(n)) if rule == 0 else '(match x.%s { Some(p) => Some(%s), None => None })' % (member(n), self.mv(t, 'p'))) for n, rule, t, i in F)))
                o.append('pub open spec fn none_%s() -> S%s { S%s { %s } }' % (D, P, P, ', '.join('%s: None' % member(f[0]) for f in F)))
                arms = ' '.join('if i == %d { match %s { Got::Is(v, u) => if 0 <= u <= b.len() { %s } else { Got::Any }, Got::Bad => Got::Bad, Got::Any => Got::Any } } else' % (
                    i, self.fgot(t, 'size', 'b'), self.cut('st.%s is Some' % member(n), 'run_%s(rest.skip(u), S%s { %s: if st.%s is Some { st.%s } else { Some(v) }, ..st })' % (D, P, member(n), member(n), member(n)))) for n, rule, t, i in F)
                body = '{ match heading(s) { None => if s.len() == 0 { Got::Is(st, 0) } else { Got::Any }, Some((i, size, rest)) => if rest.len() >= s.len()' + self.CUT + ' { Got::Any } else { let b = bounded(rest, size); %s if size <= rest.len() { run_%s(rest.skip(size as int), st) } else { Got::Any } } } }' % (arms, D)
                o.append('pub open spec fn run_%s(s: Seq<u8>, st: S%s) -> Got<S%s> decreases s.len() %s' % (D, P, P, body))
                o.append('pub proof fn once_%s(s: Seq<u8>, st: S%s) ensures run_%s(s, st) == (%s) { hide(heading); }' % (D, P, D, body))
                need = ' && '.join('st.%s is Some' % member(f[0]) for f in F if f[1] == 0) or 'true'
                o.append('pub open spec fn fin_%s(st: S%s) -> Got<M%s> { if %s { Got::Is(M%s { %s }, 0) } else { Got::Bad } }' % (D, P, P, need, P, ', '.join('%s: st.%s%s' % (member(f[0]), member(f[0]), '->0' if f[1] == 0 else '') for f in F)))
                o.append('pub open spec fn dec_%s(s: Seq<u8>) -> Got<M%s> { match run_%s(s, none_%s()) { Got::Is(st, _) => fin_%s(st), Got::Bad => Got::Bad, Got::Any => Got::Any } }' % (D, P, D, D, D))
        return o

    def depth(self, t):
        return 1 + self.depth(t[1]) if listed(t) else 0

    def reader_loops(self, fn, t, k0, st):
        """the loop which reads an array, loop number k0 of fn, as a function of its own"""
        e, k = t[1], key(t)
        T = out_ty(t, 'In')
        o = ['@@ fn %s loop %d outline &mut sub_reader, &mut payload\n    <T: crate::wire::BufRead>(sub_reader: &mut T, payload: &mut %s) -> (r: crate::wire::io::Result<()>)' % (fn, k0, T)]
        me = 'm::%s_loop%d' % (re.sub(r'\W+', '_', fn.split('::', 1)[1]), k0)
        g0 = 'gl_%s(old(sub_reader).rest(), m_%s(old(payload)@))' % (k, k)
        A = (me,)
        o.append('@@ fn %s attr\n    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]' % A)
        o.append(('@@ fn %s ret r\n    ensures T::moved(*old(sub_reader), *final(sub_reader)),\n'
                  '    old(sub_reader).sound() ==> match %s { Got::Is(v, _) => r is Ok && m_%s(final(payload)@) == v && final(sub_reader).rest().len() == 0, Got::Bad => r is Err, Got::Any => true }') % (me, g0, k))
        o.append('@@ fn %s entry\n    proof { lemma_moved::<T>(); lemma_moved::<Take<T>>(); T::lemma_stays(*sub_reader); more_%s(); %s}' % (me, k, 'more_%s(); ' % key(e) if listed_any(e) else ''))
        o.append(('@@ fn %s loop 0 inv\n    invariant_except_break old(sub_reader).sound() ==> (%s is Any || %s == gl_%s(sub_reader.rest(), m_%s(payload@)))\n    invariant T::moved(*old(sub_reader), *sub_reader)\n'
                  '    ensures old(sub_reader).sound() ==> (%s is Any || (sub_reader.rest().len() == 0 && %s == Got::Is(m_%s(payload@), 0)))\n    decreases sub_reader.rest().len()') % (me, g0, g0, k, k, g0, g0, k))
        if listed(t):
            o.append('@@ fn %s subst\n    match super::deserialize_varint\\(&mut sub_reader\\) ==> match super::deserialize_varint(&mut *sub_reader)\n    ::std::io::Read::take\\(&mut sub_reader, ==> ::std::io::Read::take(&mut *sub_reader,' % me)
            o.append('@@ fn %s after let mut sub_reader = ::std::io::Read::take\\(\n    let ghost q = sub_reader; proof { stays(q); }' % me)
            o.append('@@ fn %s loop 0 end\n    proof { T::lemma_moved(*q.inner, *final(q.inner)); }' % me)
            if e[0] == 'Arr' and e[1][0] != 'Unit':
                o += self.reader_loops(me, e, 1, st)
        else:
            o.append('@@ fn %s subst\n    \\(&mut sub_reader\\) ==> (&mut *sub_reader)' % me)
            f = 'm::%s_deserialize_element%d' % ('_'.join(st['fn'].split('::')[1:]), st['inner'])
            st['inner'] += 1
            o.append('@@ fn %s sig\n    mut sub_reader: ==> sub_reader:' % f)
            o.append('@@ fn %s subst\n    &mut sub_reader\\b ==> &mut *sub_reader' % f)
            o.append(('@@ fn %s ret r\n    ensures T::moved(*old(sub_reader), *final(sub_reader)), r is Ok ==> final(sub_reader).rest().len() < old(sub_reader).rest().len(), old(sub_reader).sound() ==> (r matches Err(x) ==> eof(x)),\n'
                      '    old(sub_reader).sound() ==> match %s { Got::Is(v, u) => (r matches Ok(x) && %s == v && taken(*old(sub_reader), *final(sub_reader), u)), Got::Bad => r is Err, Got::Any => true }') % (f, self.egot(e, 'old(sub_reader).rest()'), self.mv(e, 'x')))
            o.append('@@ fn %s entry\n    proof { lemma_moved::<T>(); T::lemma_stays(*sub_reader); lemma_zag(); }' % f)
        return o

    def read_contracts(self):
        o = []
        attr = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]'
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            fn = 'm::%sIn::deserialize_from_reader_ref' % P
            o.append('@@ fn %s attr\n    %s' % (fn, attr))
            o.append(('@@ fn %s ret r\n    ensures T::moved(*old(reader), *final(reader)),\n'
                      '    old(reader).sound() ==> match dec_%s(old(reader).rest()) { Got::Is(v, _) => (r matches Ok(x) && m_%s(x) == v && final(reader).rest().len() == 0), Got::Bad => r is Err, Got::Any => true }%s')
                     % (fn, D, D, '\n    decreases reader.rest().len()' if d['choice'] else ''))
            hides = ('hide(heading); ' if d['fields'] else '') + 'hide(%s_%s);' % ('dec' if d['choice'] else 'run', D) + ''.join(' hide(gl_%s);' % k for k in dict.fromkeys(key(f[2]) for f in d['fields'] if listed_any(f[2])))
            lem = 'lemma_zag(); T::lemma_stays(*reader); lemma_moved::<T>(); lemma_moved::<Take<T>>();' + ''.join(' more_%s();' % key(f[2]) for f in d['fields'] if listed_any(f[2]))
            o.append('@@ fn %s entry\n    %s proof { %s }' % (fn, hides, lem))
            if d['choice']:
                g0 = 'dec_%s(old(reader).rest())' % D
                o.append('@@ fn %s loop 0 inv\n    invariant T::moved(*old(reader), *reader), old(reader).sound() ==> (%s is Any || %s == dec_%s(reader.rest()))\n    decreases reader.rest().len()' % (fn, g0, g0, D))
            else:
                g0 = 'run_%s(old(reader).rest(), none_%s())' % (D, D)
                st = 'S%s { %s }' % (P, ', '.join('%s: (if _%s is Some { Some(%s) } else { None })' % (member(n), n, self.mv(t, '(_%s->0)' % n)) for n, rule, t, i in d['fields']))
                o.append(('@@ fn %s loop 0 inv\n    invariant_except_break old(reader).sound() ==> (%s is Any || %s == run_%s(reader.rest(), %s))\n    invariant T::moved(*old(reader), *reader)\n'
                          '    ensures old(reader).sound() ==> (%s is Any || (reader.rest().len() == 0 && %s == Got::Is(%s, 0)))\n    decreases reader.rest().len()') % (fn, g0, g0, D, st, g0, g0, st))
            o.append('@@ fn %s loop 0 start\n    let ghost s0 = reader.rest(); proof { once_%s(s0%s); }' % (fn, D, '' if d['choice'] else ', ' + st))
            for n, rule, t, i in [] if d['choice'] else d['fields']:
                o.append('@@ fn %s before _%s\\.get_or_insert\\(payload\\)\n    proof { T::lemma_moved(*q.inner, *final(q.inner)); assert(reader.sound() ==> match %s { Got::Is(v, u) => v == %s && reader.rest() =~= behind(s0).skip(u), Got::Bad => false, Got::Any => true }); }' % (
                    fn, n, self.fgot(t, 'payload_size', 'bounded(behind(s0), payload_size)'), self.mv(t, 'payload')))
            o.append('@@ fn %s after super::skip\\(\n    proof { T::lemma_moved(*q.inner, *final(q.inner)); assert(reader.sound() ==> payload_size <= behind(s0).len() && reader.rest() =~= behind(s0).skip(payload_size as int)); }' % fn)
            o.append('@@ fn %s after let mut sub_reader = ::std::io::Read::take\\(\n    let ghost q = sub_reader; proof { stays(q); }' % fn)
            if d['choice'] and any(f[1] == 2 for f in d['fields']):
                o.append('@@ fn %s before let fallback =\n    proof { T::lemma_moved(*q.inner, *final(q.inner)); assert(reader.rest() =~= behind(s0).skip(behind(s0).len() - reader.rest().len())); }' % fn)
            c, at = {'fn': fn, 'inner': 0}, 1
            for n, rule, t, i in d['fields']:
                if listed_any(t):
                    o += self.reader_loops(fn, t, at, c)
                    at += 1
        return o

    # -- what is written is read back, by a reader of the same or of another version -----------------
    def pk(self, a, b):
        return key(a) if a == b else key(a) + '_as_' + key(b)

    def seen(self, a, b, x):
        """what a reader with the type b sees of the value x of the type a"""
        k = a[0]
        return {'Unit': '()', 'F64': 'fbits(%s)' % x, 'U64': x, 'S64': x, 'Bool': x, 'Bytes': x + '@', 'String': x + '@'}.get(k) or \
            ('seen_%s_%s(%s)' % (a[2], b[2], x) if k == 'Decl' else '%s@.len() as int' % x if a[1][0] == 'Unit' else 'sn_%s(%s@)' % (self.pk(a, b), x))

    def ok(self, a, b, x):
        """a reader with the type b accepts the value x of the type a"""
        if a == b or a[0] not in ('Decl', 'Arr'):
            return 'true'
        return 'ok_%s_%s(%s)' % (a[2], b[2], x) if a[0] == 'Decl' else 'okn_%s(%s@)' % (self.pk(a, b), x)

    def payload(self, a, b, x):
        """proof that the payload x of a field is read back"""
        k = a[0]
        return {'Unit': '', 'F64': 'back_float(fbits(%s));' % x, 'U64': 'back_int(%s);' % x, 'S64': 'back_int(zigzag(%s)); lemma_zag();' % x, 'Bool': 'back_int(if %s { 1u64 } else { 0u64 });' % x,
                'Bytes': '', 'String': 'axiom_text();', 'Decl': 'back_%s_%s(%s);' % (a[2], b[2], x) if k == 'Decl' else ''}.get(k) if k != 'Arr' else \
            'back_int(%s@.len() as u64); axiom_length(%s);' % (x, x) if a[1][0] == 'Unit' else 'all_%s(%s@);' % (self.pk(a, b), x)

    def element(self, a, b, x, tail):
        k = a[0]
        return {'F64': 'back_ge8(fbits(%s), %s);' % (x, tail), 'U64': 'back_ge(%s, %s);' % (x, tail), 'S64': 'back_ge(zigzag(%s), %s); lemma_zag();' % (x, tail), 'Bool': 'back_ge(if %s { 1u64 } else { 0u64 }, %s);' % (x, tail)}.get(k) or \
            ('back_ge(%s@.len() as u64, Seq::empty()); axiom_length(%s); lemma_none(encoded(%s@.len() as u64));' % (x, x, x) if k == 'Arr' and a[1][0] == 'Unit' else self.payload(a, b, x))

    # -- the conversion of a message to be written into one as if read -------------------------------
    def turn_loops(self, fn, t, st, o):
        if not self.turned(t):
            return
        e, k = t[1], key(t)
        me = st['chain']
        st['chain'] += 1
        o.append('@@ fn %s loop chain%d inv\n    invariant $OUT@.len() == $I, $IT.len() >= $REST.len(), $REST == $IT.skip($I), forall|i: int| #![trigger $OUT@[i]] 0 <= i < $I ==> %s == %s' % (fn, me, self.mv(e, '$OUT@[i]'), self.seen(e, e, '$IT[i]')))
        o.append('@@ fn %s loop chain%d type\n    %s' % (fn, me, out_ty(t, 'In')))
        o.append('@@ fn %s loop chain%d post\n    assert(m_%s($OUT@) =~= sn_%s($IT));' % (fn, me, k, k))
        self.turn_loops(fn, e, st, o)

    def turned(self, t):
        return t[0] == 'Arr' and (t[1][0] == 'Decl' or self.turned(t[1]))

    def turn_contracts(self):
        o = []
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            fn = 'm::From<%sOut>for%sIn::from' % (P, P)
            o.append('@@ fn %s attr\n    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]' % fn)
            o.append('@@ fn %s ret r\n    ensures m_%s(r) == seen_%s_%s(message)' % (fn, D, D, D))
            o.append('@@ fn %s sig\n    ^fn  ==> pub fn ' % fn)
            arrays = [f[2] for f in d['fields'] if f[2][0] == 'Arr']
            o.append('@@ fn %s entry\n    proof { %s }' % (fn, ' '.join('same_%s();' % key(t) for t in arrays if t[1][0] != 'Unit' and not self.turned(t))))
            c = {'chain': 0}
            for f in d['fields']:
                self.turn_loops(fn, f[2], c, o)
        return o

    def turn_specs(self):
        """Turn is the trait From gives: x.into() is In::from(x)"""
        o = []
        for k, t in self.arrays.items():
            if not self.turned(t):
                e = t[1]
                o.append('pub proof fn same_%s() ensures forall|s: Seq<%s>| #[trigger] m_%s(s) == sn_%s(s) { %s assert forall|s: Seq<%s>| #[trigger] m_%s(s) == sn_%s(s) by { assert(m_%s(s) =~= sn_%s(s)); } }' % (
                    k, out_ty(e), k, k, 'same_%s();' % key(e) if listed_any(e) else '', out_ty(e), k, k, k, k))
        return o + ['impl crate::msg::Turn<%sIn> for %sOut { open spec fn turns(self, r: %sIn) -> bool { m_%s(r) == seen_%s_%s(self) } #[verifier::exec_allows_no_decreases_clause] fn turn(self) -> (r: %sIn) { %sIn::from(self) } }' % (
            P, P, P, D, D, D, P, P) for D, P in [(d['name'], pascal(d['name'])) for d in self.decls]]

    def back_specs(self, pairs):
        """pairs: (name of the writer's type, name of the reader's type)"""
        o, done = [], set()
        by = {d['name']: d for d in self.decls}

        def array(a, b):
            k = self.pk(a, b)
            if k in done:
                return
            done.add(k)
            e, f = a[1], b[1]
            if listed_any(e):
                array(e, f)
            M = 'Seq<%s>' % self.mty(f)
            W, R = key(a), key(b)
            ok = '' if a == b else ', okn_%s(s)' % k
            if ok:
                o.append('pub open spec fn okn_%s(s: Seq<%s>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> %s }' % (k, out_ty(e), self.ok(e, f, 's[i]')))
            E = self.enc(e, 's[m - 1]', False)
            piece = E if e[0] in FLAT else 'item(%s)' % E
            o.append('pub open spec fn sn_%s(s: Seq<%s>) -> %s { Seq::new(s.len(), |i: int| %s) }' % (k, out_ty(e), M, self.seen(e, f, 's[i]')))
            o.append(('pub proof fn some_%s(s: Seq<%s>, m: int, t: Seq<u8>, acc: %s) requires 0 <= m <= s.len(), n_%s(s, m).len() <= usize::MAX%s ensures gl_%s(n_%s(s, m) + t, acc) == gl_%s(t, acc + sn_%s(s).take(m)) decreases m {\n'
                      '    hide(item); hide(encoded); hide(le8); hide(whole); hide(decoded); hide(bounded);\n    mention();\n    if m == 0 { assert(n_%s(s, 0) + t =~= t); assert(acc + sn_%s(s).take(0) =~= acc); } else {\n        let e = %s; let p = %s; let u = p + t;\n        assert(n_%s(s, m) == n_%s(s, m - 1) + p); assert(n_%s(s, m) + t =~= n_%s(s, m - 1) + u);\n'
                      '        %s\n        some_%s(s, m - 1, u, acc);\n        %s\n        let v = %s; let have = acc + sn_%s(s).take(m - 1); assert(have.push(v) =~= acc + sn_%s(s).take(m)); assert(u.skip(p.len() as int) =~= t);\n        assert(gl_%s(u, have) == gl_%s(t, have.push(v)));\n    }\n}')
                     % (k, out_ty(e), M, W, ok, R, W, R, k, W, k, E, piece, W, W, W, W,
                        '' if e[0] in FLAT else 'assert(p.len() >= e.len()) by { reveal(item); }', k,
                        self.element(e, f, 's[m - 1]', 't') if e[0] in FLAT else 'back_item(e, t); ' + self.element(e, f, 's[m - 1]', ''), self.seen(e, f, 's[m - 1]'), k, k, R, R))
            o.append(('pub proof fn all_%s(s: Seq<%s>) requires n_%s(s, s.len() as int).len() <= usize::MAX%s ensures ga_%s(n_%s(s, s.len() as int)) == Got::Is(sn_%s(s), n_%s(s, s.len() as int).len() as int) {\n'
                      '    let w = n_%s(s, s.len() as int); some_%s(s, s.len() as int, Seq::empty(), Seq::empty()); lemma_none(w); assert(Seq::<%s>::empty() + sn_%s(s).take(s.len() as int) =~= sn_%s(s)); assert(gl_%s(Seq::empty(), sn_%s(s)) == Got::Is(sn_%s(s), 0));\n}')
                     % (k, out_ty(e), W, ok, R, W, k, W, W, k, self.mty(f), k, k, R, k, k))

        for w, r in pairs:
            A, B = by[w], by[r]
            PW, PR = pascal(w), pascal(r)
            N = '%s_%s' % (w, r)
            R = {f[3]: f for f in B['fields']}
            for f in A['fields']:
                if f[3] in R and listed_any(f[2]):
                    array(f[2], R[f[3]][2])
            same = w == r
            if A['choice']:
                see, ok, pf, lost, lpf = [], [], [], [], []
                for n, rule, t, i in A['fields']:
                    unit = t[0] == 'Unit'
                    vs = ([] if unit else ['p']) + ([] if rule == 0 else ['fb'])
                    pat = '%sOut::%s' % (PW, pascal(n)) + ('(%s)' % ', '.join(vs) if vs else '')
                    g = R.get(i)
                    back = 'back_one(%d, %s, %s, %s); once_%s(enc_%s(x)); ' % (i, varint_mode(t), self.enc(t, 'p', True), 'Seq::empty()' if rule == 0 else 'enc_%s(*fb)' % w, r, w)
                    back += 'lemma_none(one(%d, %s, %s)); ' % (i, varint_mode(t), self.enc(t, 'p', True)) if rule == 0 else ''
                    if g is None:
                        see.append('%s => %s,' % (pat, 'seen_%s(*fb)' % N if rule else 'arbitrary()'))
                        ok.append('%s => %s,' % (pat, 'ok_%s(*fb)' % N if rule else 'false'))
                        pay = {'U64': 'back_int(p);', 'S64': 'back_int(zigzag(p));', 'Bool': 'back_int(if p { 1u64 } else { 0u64 });'}.get(t[0], '')
                        pf.append('%s => { %s %s }' % (pat, pay + back, 'back_%s(*fb);' % N if rule else ''))
                        lost.append('%s => %s,' % (pat, 'lost_%s(*fb)' % N if rule else 'true'))
                        lpf.append('%s => { %s %s }' % (pat, pay + back, 'lost_back_%s(*fb);' % N if rule else 'at_end(); once_%s(Seq::empty());' % r))
                        continue
                    u = g[2]
                    vals = ([] if unit else [self.seen(t, u, 'p')]) + ([] if g[1] != 2 else ['Box::new(seen_%s(*fb))' % N if rule else 'arbitrary()'])
                    see.append('%s => M%s::%s%s,' % (pat, PR, pascal(g[0]), '(%s)' % ', '.join(vals) if vals else ''))
                    ok.append('%s => %s%s,' % (pat, self.ok(t, u, 'p'), '' if g[1] != 2 else ' && ok_%s(*fb)' % N if rule else ' && false'))
                    pf.append('%s => { %s %s %s }' % (pat, self.payload(t, u, 'p'), back, 'back_%s(*fb);' % N if g[1] == 2 and rule else ''))
                o.append('pub open spec fn seen_%s(x: %sOut) -> M%s decreases x { match x { %s } }' % (N, PW, PR, ' '.join(see)))
                if not same:
                    o.append('pub open spec fn ok_%s(x: %sOut) -> bool decreases x { match x { %s } }' % (N, PW, ' '.join(ok)))
                o.append('pub proof fn back_%s(x: %sOut) requires enc_%s(x).len() <= usize::MAX%s ensures dec_%s(enc_%s(x)) matches Got::Is(v, _) && v == seen_%s(x) decreases x {\n    hide(heading); hide(header); hide(dec_%s); hide(bounded); hide(f_u64); hide(gf_u64); hide(f_f64); hide(gf_f64);\n    mention();\n    match x {\n        %s\n    }\n}' % (
                    N, PW, w, '' if same else ', ok_%s(x)' % N, r, w, N, r, '\n        '.join(pf)))
                if lost:
                    # a case the reader does not know, without a fallback it knows, is an error
                    o.append('pub open spec fn lost_%s(x: %sOut) -> bool decreases x { match x { %s _ => false } }' % (N, PW, ' '.join(lost)))
                    o.append('pub proof fn lost_back_%s(x: %sOut) requires enc_%s(x).len() <= usize::MAX, lost_%s(x) ensures dec_%s(enc_%s(x)) is Bad decreases x {\n    hide(heading); hide(header); hide(dec_%s); hide(bounded); hide(f_u64); hide(gf_u64); hide(f_f64); hide(gf_f64);\n    mention();\n    match x {\n        %s\n        _ => {}\n    }\n}' % (
                        N, PW, w, N, r, w, r, '\n        '.join(lpf)))
                continue
            # the state of the reader once the first k fields are read
            S = lambda have: 'S%s { %s }' % (PR, ', '.join('%s: %s' % (member(g[0]), have.get(g[3], 'None')) for g in B['fields']))
            have, oks, full = {}, [], []
            o.append('pub open spec fn st_%s_0(x: %sOut) -> S%s { none_%s() }' % (N, PW, PR, r))
            for j, (n, rule, t, i) in enumerate(A['fields']):
                g = R.get(i)
                x = 'x.' + member(n)
                okj = 'true'
                if g:
                    m, u = member(g[0]), g[2]
                    val = 'match %s { Some(p) => Some(%s), None => None }' % (x, self.seen(t, u, 'p')) if rule == 2 else 'Some(%s)' % self.seen(t, u, x)
                    have[i] = val
                    o.append('pub open spec fn st_%s_%d(x: %sOut) -> S%s { S%s { %s: %s, ..st_%s_%d(x) } }' % (N, j + 1, PW, PR, PR, m, val, N, j))
                    k = self.ok(t, u, 'p' if rule == 2 else x)
                    okj = k if rule != 2 or k == 'true' else '(match %s { Some(p) => %s, None => true })' % (x, k)
                    pay = self.payload(t, u, 'p')
                else:
                    o.append('pub open spec fn st_%s_%d(x: %sOut) -> S%s { st_%s_%d(x) }' % (N, j + 1, PW, PR, N, j))
                    pay = {'U64': 'back_int(p);', 'S64': 'back_int(zigzag(p));', 'Bool': 'back_int(if p { 1u64 } else { 0u64 });'}.get(t[0], '')
                if okj != 'true':
                    oks.append(okj)
                part = self.part(A, j, 'x')
                do = '%s back_one(%d, %s, %s, t); once_%s(%s + t, st);' % (pay, i, varint_mode(t), self.enc(t, 'p', True), r, part)
                body = 'match %s { Some(p) => { %s } None => { assert(%s + t =~= t); } }' % (x, do, part) if rule == 2 else 'let p = %s; %s' % (x, do)
                o.append(('pub proof fn step_%s_%d(x: %sOut, st: S%s, t: Seq<u8>) requires (%s).len() <= usize::MAX%s%s ensures run_%s(%s + t, st) == run_%s(t, %s) {\n    hide(heading); hide(header); hide(run_%s); hide(bounded); hide(f_u64); hide(gf_u64); hide(f_f64); hide(gf_f64);\n    mention();\n    assert(%s.len() <= usize::MAX);\n    %s\n}')
                         % (N, j, PW, PR, part, ', ' + okj if okj != 'true' else '', ', st.%s is None' % m if g else '', r, part, r, 'S%s { %s: %s, ..st }' % (PR, m, val) if g else 'st', r,
                            '(match %s { Some(p) => %s, None => Seq::<u8>::empty() })' % (x, self.enc(t, 'p', True)) if rule == 2 else '(%s)' % self.enc(t, x, True), body))
            for g in B['fields']:
                if g[1] == 0:
                    f = next((f for f in A['fields'] if f[3] == g[3]), None)
                    if f is None:
                        full.append('false')
                    elif f[1] == 2:
                        full.append('x.%s is Some' % member(f[0]))
            if not same:
                o.append('pub open spec fn fit_%s(x: %sOut) -> bool { %s }' % (N, PW, ' && '.join(oks) or 'true'))
                o.append('pub open spec fn full_%s(x: %sOut) -> bool { %s }' % (N, PW, ' && '.join(full) or 'true'))
                o.append('pub open spec fn ok_%s(x: %sOut) -> bool { fit_%s(x) && full_%s(x) }' % (N, PW, N, N))
            o.append('pub open spec fn seen_%s(x: %sOut) -> M%s { M%s { %s } }' % (N, PW, PR, PR, ', '.join('%s: %s' % (member(g[0]), ('(%s)->0' if g[1] == 0 else '(%s)') % have.get(g[3], 'None::<%s>' % self.mty(g[2]))) for g in B['fields'])))
            for j in range(len(A['fields']) + 1):
                if j == 0:
                    body = 'reveal(pre_%s_0); assert(pre_%s_0(x) + t =~= t);' % (w, w)
                else:
                    part = self.part(A, j - 1, 'x')
                    body = 'let q = %s; assert(pre_%s_%d(x) == pre_%s_%d(x) + q) by { reveal(pre_%s_%d); } assert(pre_%s_%d(x) + t =~= pre_%s_%d(x) + (q + t)); prefix_%s_%d(x, q + t); step_%s_%d(x, st_%s_%d(x), t);' % (
                        part, w, j, w, j - 1, w, j, w, j, w, j - 1, N, j - 1, N, j - 1, N, j - 1)
                o.append('pub proof fn prefix_%s_%d(x: %sOut, t: Seq<u8>) requires pre_%s_%d(x).len() <= usize::MAX%s ensures run_%s(pre_%s_%d(x) + t, none_%s()) == run_%s(t, st_%s_%d(x)) { hide(run_%s); %s }' % (
                    N, j, PW, w, j, '' if same else ', fit_%s(x)' % N, r, w, j, r, r, N, j, r, body))
            n = len(A['fields'])
            o.append('pub proof fn back_%s(x: %sOut) requires enc_%s(x).len() <= usize::MAX%s ensures dec_%s(enc_%s(x)) matches Got::Is(v, _) && v == seen_%s(x) {\n    reveal(enc_%s); prefix_%s_%d(x, Seq::empty()); lemma_none(pre_%s_%d(x)); at_end(); once_%s(Seq::empty(), st_%s_%d(x));\n}' % (
                N, PW, w, '' if same else ', ok_%s(x)' % N, r, w, N, w, N, n, w, n, r, N, n))
            if full:
                # a required field which is not there is an error, when all that is there is fine
                o.append('pub proof fn lack_%s(x: %sOut) requires enc_%s(x).len() <= usize::MAX, fit_%s(x), !full_%s(x) ensures dec_%s(enc_%s(x)) is Bad {\n    reveal(enc_%s); prefix_%s_%d(x, Seq::empty()); lemma_none(pre_%s_%d(x)); at_end(); once_%s(Seq::empty(), st_%s_%d(x));\n}' % (
                    N, PW, w, N, N, r, w, w, N, n, w, n, r, N, n))
        return o


def listed_any(t):
    return t[0] == 'Arr' and t[1][0] != 'Unit'


def prelude_stubs():
    """the contracts of the functions of the prelude, proved in the unit `prelude`"""
    o = []
    for h, b in extract.parse_vspec(os.path.join(VERIF, 'verus', 'prelude.vspec')):
        w = h.split()
        if w[0] == 'fn' and len(w) == 4 and w[2] == 'ret':
            o.append('@@ fn %s external %s\n%s' % (w[1], w[3], b.rstrip('\n').replace('=~=', '==')))
            o.append('@@ fn %s sig\n    ^fn  ==> pub fn ' % w[1])
    return o


FNS = 'zigzag_encode zigzag_decode varint_size_from_value varint_size_from_first_byte serialize_varint deserialize_varint field_header_size serialize_field_header deserialize_field_header skip finish'


def unit(decls, parts=('write',), pairs=None):
    w = Writer(decls)
    v = VERIF + '/verus/'
    o = ['@@ include %scommon.vspec' % v, '@@ include %swire.vspec' % v, '@@ include %smessage.vspec' % v] + (['@@ include %swirelemmas.vspec' % v, '@@ include %sbacklemmas.vspec' % v] if 'back' in parts else []) + ['@@ truncate u8', '@@ option push', '@@ module gen gen:prelude', 'use vstd::prelude::*;\nuse crate::wire::*;',
         '@@ take ' + FNS, '@@ endmodule'] + prelude_stubs()
    o += ['@@ methods', '    to_bits/0 ==> crate::msg::to_bits($R)', '    to_le_bytes/0 ==> crate::msg::to_le_bytes($R)', '    as_bytes/0 ==> crate::msg::as_bytes($R)', '    len/0 ==> crate::msg::length($R)', '    into/0 ==> crate::msg::Turn::turn($R)', '    reserve_exact/1 ==> crate::msg::reserve(&mut $R, $1)', '    get_or_insert/1 ==> crate::msg::keep(&mut $R, $1)']
    o += ['@@ subst m', r'    ::std::io::Read::take\((&mut [*\w]+),\s*(\w+) as u64\) ==> crate::msg::Take { inner: \1, limit: \2 as u64 }',
          r'    ::std::io::Read::read_exact\(\s*(&mut [*\w]+),\s*(?:&mut buffer|&mut crate::shim::slice\(&buffer.*\)|&mut buffer\[\.\.\])\s*\) ==> crate::msg::read8(\1, &mut buffer)',
          r'    ::std::io::Read::(read_to_string|read_to_end)\( ==> crate::msg::\1(', r'    \bu64::from_le_bytes\( ==> crate::wire::from_le_bytes(', r'    \bf64::from_le_bytes\( ==> crate::msg::f64_of(',
          r'    \b0\.0_f64 ==> crate::msg::zero()', r'    \bString::new\(\) ==> crate::msg::new_string()', r'    \bvec!\[\(\); (\w+) as usize\] ==> crate::msg::units(\1 as usize)',
          r'    (?:::)?std::io::ErrorKind\b ==> crate::wire::ErrorKind', r'    ::std::io::Error::new\( ==> crate::wire::Error::new(', r'    \bsuper::MISSING_FIELDS_ERROR_MESSAGE ==> "missing fields"', r'    \bsuper::(\w+)\( ==> crate::gen::\1(', r'    T: ::std::io::Write\b ==> T: crate::wire::Write', r'    T: ::std::io::BufRead\b ==> T: crate::wire::BufRead', r'    ::std::io::Result\b ==> crate::wire::io::Result',
          r'    (usize|u64)::from\(\*?payload\) ==> (if *payload { 1 } else { 0 })']
    o += ['@@ module m gen:message', 'use vstd::prelude::*;\nuse crate::wire::*;\nuse crate::msg::*;\nuse crate::spec::*;']
    if 'back' in parts:
        for d in decls:
            P = pascal(d['name'])
            o.append('@@ take %sIn %sOut%s' % (P, P, '' if pairs else ' inherent:From<%sOut>for%sIn=%sIn:from' % (P, P, P)))
    if 'back' in parts and not pairs:
        o.append('@@ option owned')
    if 'read' in parts:
        for d in decls:
            P = pascal(d['name'])
            o.append('@@ take %sIn impl:%sIn:*' % (P, P))
    for d in decls if 'write' in parts else []:
        P = pascal(d['name'])
        o.append('@@ take %sAtlas %sOut impl:%sOut:* impl:%sAtlas:* inherent:super::Serializefor%sOut=%sOut:size,serialize' % (P, P, P, P, P, P))
    o += ['@@ endmodule'] + (w.turn_contracts() if 'back' in parts and not pairs else []) + (w.contracts() if 'write' in parts else []) + (w.read_contracts() if 'read' in parts else [])
    o += ['@@ raw', 'pub mod spec {\nuse vstd::prelude::*;\nuse crate::wire::*;\nuse crate::msg::*;\nuse crate::m::*;' + ('\nuse crate::back::*;' if 'back' in parts else '')] + (w.specs('write' in parts) if 'write' in parts or 'back' in parts else []) + (w.read_specs() if 'read' in parts or 'back' in parts else []) + (w.back_specs(pairs or [(d['name'], d['name']) for d in decls]) if 'back' in parts else []) + (w.turn_specs() if 'back' in parts and not pairs else [])
    o.append('pub proof fn lemma_sizes() ensures forall|n: u64| #[trigger] encoded(n).len() == width(n), forall|n: u64| #[trigger] le8(n).len() == 8 { }')
    o += ['}', '} // verus!', 'fn main() {}']
    return '\n'.join(o) + '\n'


def write(name, decls, code, parts=('write',), pairs=None):
    """-> (unit path, overrides)"""
    d = os.path.join(VERIF, 'build', 'units')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    tmp = p + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(unit(decls, parts, pairs))
    os.replace(tmp, p + '.vspec')
    i = code.index('\npub mod ')
    j = code.index('{\n', i) + 2
    return p, {'gen:prelude': (code[:i] + '\n').encode(), 'gen:message': code[j:code.rindex('}')].encode()}


def family():
    """the schemas whose generated code is put under contract: {name: declarations}"""
    def d(name, fields, choice=False):
        used = {f[3] for f in fields}
        return dict(name=name, choice=choice, fields=fields, deleted=[i for i in range(max(used) if used else 0) if i not in used])
    A = lambda t: ('Arr', t)
    D = lambda n: ('Decl', 'main.t', n)
    P = {k: (k,) for k in PRIM}
    U, F, N, S, B, Y, T = (P[k] for k in PRIM)
    prims = [('u', U), ('f', F), ('n', N), ('s', S), ('b', B), ('y', Y), ('t', T)]
    return {
        # every primitive type, required, asymmetric and optional
        'msg-prims': [d('Req', [(n, 0, t, i) for i, (n, t) in enumerate(prims)]), d('Asy', [(n, 1, t, i) for i, (n, t) in enumerate(prims)]),
                      d('Opt', [(n, 2, t, i) for i, (n, t) in enumerate(prims)])],
        # arrays of every primitive type, under every rule, and arrays of arrays of them
        'msg-arrays': [d('Flat', [(n, i % 3, A(t), i) for i, (n, t) in enumerate(prims)]), d('Deep', [(n, (i + 1) % 3, A(A(t)), i) for i, (n, t) in enumerate(prims)])],
        # choices: every primitive type under every rule
        'msg-cases': [d('Final', [(n, 0, t, i) for i, (n, t) in enumerate(prims)], True), d('Soft', [('z', 0, U, 9)] + [(n, 2, t, i) for i, (n, t) in enumerate(prims)], True),
                      d('Hard', [('z', 0, U, 9)] + [(n, 1, t, i) for i, (n, t) in enumerate(prims)], True), d('Lists', [(n, (i + 2) % 3, A(t), i) for i, (n, t) in enumerate(prims)], True)],
        # messages in messages, three layers of arrays, nothing at all, large indices, names which are keywords
        'msg-nested': [d('Inner', [('n', 0, N, 0), ('s', 2, T, 1)]), d('Alt', [('x', 0, U, 0), ('y', 2, A(S), 1), ('z', 1, D('Inner'), 2)], True),
                       d('Empty', []),
                       d('Outer', [('type', 0, D('Inner'), 0), ('b', 1, D('Alt'), 31), ('c', 2, D('Empty'), 32), ('d', 0, A(D('Alt')), 4127), ('e', 2, A(A(A(T))), 4128), ('match', 1, A(A(D('Inner'))), 4130), ('far', 2, U, 4200), ('off', 0, U, 4201)]),
                       d('Either', [('l', 0, D('Outer'), 0), ('r', 2, A(D('Alt')), 77), ('m', 1, A(A(A(N))), 300)], True)],
    }


def evolutions():
    """pairs of versions of the same messages: {name: (declarations, [(writer's type, reader's type)])}"""
    def d(name, fields, choice=False):
        return dict(name=name, choice=choice, fields=fields, deleted=[i for i in range(max([f[3] for f in fields] or [0])) if i not in {f[3] for f in fields}])
    A = lambda t: ('Arr', t)
    D = lambda n: ('Decl', 'main.t', n)
    U, F, N, S, B, Y, T = ((k,) for k in PRIM)
    old_inner = [('n', 0, N, 0), ('t', 2, T, 1)]
    new_inner = [('t_renamed', 2, T, 1), ('n', 0, N, 0), ('extra', 1, F, 2), ('more', 2, A(Y), 3)]
    return {
        # fields which appear, disappear, change their names, their order and their rules
        'msg-fields': ([
            d('One', [('a', 0, N, 0), ('b', 0, T, 1), ('c', 2, S, 2), ('d', 2, A(F), 3), ('e', 0, B, 4)]),
            d('Two', [('e', 1, B, 4), ('a', 0, N, 0), ('c', 1, S, 2), ('b', 2, T, 1), ('f', 1, Y, 5), ('g', 2, A(A(N)), 6), ('h', 1, U, 7)]),
            d('Three', [('g', 0, A(A(N)), 6), ('f', 0, Y, 5), ('c', 0, S, 2), ('h', 0, U, 7), ('i', 1, F, 40), ('j', 1, A(T), 41)]),
        ], [('One', 'Two'), ('Two', 'One'), ('Two', 'Three'), ('Three', 'Two'), ('One', 'Three'), ('Three', 'One')]),
        # cases which appear, disappear, change their names, their order and their rules
        'msg-fallbacks': ([
            d('One', [('a', 0, N, 0), ('b', 0, U, 1), ('c', 2, T, 2)], True),
            d('Two', [('b', 0, U, 1), ('a', 1, N, 0), ('c', 1, T, 2), ('d', 1, A(S), 3), ('e', 2, F, 4)], True),
            d('Three', [('renamed', 0, U, 1), ('c', 0, T, 2), ('d', 0, A(S), 3), ('f', 2, A(A(Y)), 5), ('g', 1, U, 6)], True),
        ], [('One', 'Two'), ('Two', 'One'), ('Two', 'Three'), ('Three', 'Two'), ('One', 'Three'), ('Three', 'One')]),
        # messages of another version inside structs, choices and arrays
        'msg-inside': ([
            d('Old', old_inner), d('New', new_inner),
            d('Either', [('l', 0, N, 0), ('r', 2, D('Old'), 1)], True), d('Any', [('l', 0, N, 0), ('m', 1, U, 2), ('r', 2, D('New'), 1)], True),
            d('Before', [('x', 0, D('Old'), 0), ('y', 2, A(D('Either')), 1), ('z', 1, A(A(D('Old'))), 2)]),
            d('After', [('x', 1, D('New'), 0), ('y', 0, A(D('Any')), 1), ('z', 2, A(A(D('New'))), 2), ('w', 1, D('Any'), 3)]),
        ], [('Old', 'New'), ('New', 'Old'), ('Either', 'Any'), ('Any', 'Either'), ('Before', 'After'), ('After', 'Before')]),
    }


def random_decls(seed):
    """declarations of one file"""
    import random, wire
    rng = random.Random('verus %d' % seed)
    done, decls = [], []
    for name in rng.sample(wire.TYPES, rng.randrange(1, 4)):
        decls.append(wire.random_decl(rng, name, done))
        done.append(('Decl', 'main.t', name))
    return decls


def variants(ctx, parts=('write', 'read', 'back'), sets=('family',)):
    """units for the code the program of the current tree generates for the schemas of the family"""
    import wire
    binary = ctx.build('cli')
    r = {}
    todo = [(n, d, None) for n, d in family().items()] if 'family' in sets else []
    todo += [(n, d, p) for n, (d, p) in evolutions().items()] if 'evolutions' in sets else []
    if os.environ.get('VERIF_TIER') == 'thorough':
        # and for random ones
        seed = int(os.environ.get('VERIF_SEED') or 1)
        todo += [('random-%d' % k, random_decls(k), None) for k in range(seed, seed + 4)]
    for name, decls, pairs in todo:
        code, log = gencode.generate(wire.texts([('main.t', decls)]), 'main.t', 'rust', binary) if binary else (None, ctx.log)
        if code is None:
            raise Exception('no code for %s: %s' % (name, log[-400:]))
        for part in ('write', 'read', 'back') if pairs else parts:
            r[name + '-' + part] = write(name + '-' + part, decls, code.decode(), (part,), pairs)
    return r
