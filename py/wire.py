"""Generated Rust code against the documented wire format (Part B of C01 - C04).

For a family of schemas (fixed ones plus random ones) the program of the current tree generates Rust
code; it is compiled together with the reference in /verif/wire/wireref.rs, and both are compared on
values and on byte strings. A replay names the schema files and the case.
"""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
import gencode, hx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM = ['Unit', 'F64', 'U64', 'S64', 'Bool', 'Bytes', 'String']
RULES = ['', 'asymmetric ', 'optional ']
KEYWORDS = {'type', 'match', 'loop', 'fn', 'ref', 'box'}
NAMES = ['a', 'b', 'c', 'd', 'e', 'foo_bar', 'type', 'match', 'x1', 'payload', 'reader', 'index', 'size', 'fallback', 'writer', 'atlas', 'message',
         'buffer', 'payload_atlas', 'value', 'loop', 'header', 'err', 'sub_reader', 'ref', 'zigzag', 'varint', 'element', 'q2', 'result', 'long_name_with_words']
TYPES = ['Foo', 'Bar', 'BazQux', 'Vec', 'Option', 'Result', 'Thing', 'Atlas', 'Message', 'T', 'Box', 'Point3', 'Left', 'Right', 'Error']


# A schema set: list of files (path, [decl]); decl = dict(name, choice, fields=[(name, rule, type, index)], deleted)
# A type: ('Unit',) ... | ('Arr', type) | ('Decl', path, name)
def show(t, here, imports):
    if t[0] == 'Arr':
        return '[' + show(t[1], here, imports) + ']'
    if t[0] == 'Decl':
        return t[2] if t[1] == here else imports[t[1]] + '.' + t[2]
    return t[0]


def texts(files):
    r = {}
    for path, decls in files:
        used = []

        def see(t):
            if t[0] == 'Arr':
                see(t[1])
            if t[0] == 'Decl' and t[1] != path and t[1] not in used:
                used.append(t[1])
        for d in decls:
            for f in d['fields']:
                see(f[2])
        imports = {p: 'imp%d' % i for i, p in enumerate(used)}
        out = []
        for p in used:
            out.append("import '%s' as %s" % (os.path.relpath(p, os.path.dirname(path) or '.'), imports[p]))
        for d in decls:
            out.append('%s %s {' % ('choice' if d['choice'] else 'struct', d['name']))
            for n, rule, t, i in d['fields']:
                ty = ': ' + show(t, path, imports) if t != ('Unit',) else ''
                out.append('    %s%s%s = %d' % (RULES[rule], '$' + n if n in KEYWORDS and False else n, ty, i))
            if d['deleted']:
                out.append('    deleted ' + ' '.join(map(str, d['deleted'])))
            out.append('}')
        r[path] = '\n'.join(out) + '\n'
    return r


def pascal(n):
    return ''.join(w[:1].upper() + w[1:] for w in n.split('_'))


def raw(n):
    return 'r#' + n if n in KEYWORDS else n


def number_fields(rng, names, gaps):
    """indices: a shuffled contiguous run, some of them deleted"""
    n = len(names)
    total = n + (rng.randrange(1, 4) if gaps == 1 else 40 if gaps == 2 else 4300 if gaps == 3 else 0)
    idx = sorted(rng.sample(range(total), n))
    if gaps >= 2 and n:
        idx[-1] = total - 1
    if rng.random() < 0.3:
        rng.shuffle(idx)
    top = max(idx) if idx else -1
    return idx, [i for i in range(top + 1) if i not in idx]


def random_set(rng):
    nfiles = rng.choice([1, 1, 1, 2, 3])
    paths = ['main.t', rng.choice(['other.t', 'dir/other.t']), rng.choice(['dir/sub/third.t', 'third.t'])][:nfiles]
    done = []
    files = {p: [] for p in paths}
    for p in reversed(paths):
        for name in rng.sample(TYPES, rng.randrange(1, 4)):
            files[p].append(random_decl(rng, name, done))
            done.append(('Decl', p, name))
    # everything is reached from the main file
    main = files['main.t']
    top = dict(name='Everything', choice=False, fields=[], deleted=[])
    for i, t in enumerate(x for x in done if x[1] != 'main.t'):
        top['fields'].append(('f%d' % i, i % 3, t, i))
    main.append(top)
    return [(p, files[p]) for p in paths]


def random_type(rng, done):
    depth = rng.choice([0, 0, 0, 1, 1, 2, 3])
    t = rng.choice(done) if done and rng.random() < 0.35 else (rng.choice(PRIM),)
    for _ in range(depth):
        t = ('Arr', t)
    return t


def random_decl(rng, name, done):
    choice = rng.random() < 0.4
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 17]) if choice or rng.random() < 0.95 else 0
    names = rng.sample(NAMES, n)
    idx, deleted = number_fields(rng, names, rng.choice([0, 0, 0, 1, 2]))
    # now and then one rule or one type for all of them
    rules = [rng.randrange(3)] if rng.random() < 0.35 else [0, 1, 2]
    one = random_type(rng, done) if rng.random() < 0.2 else None
    fields = [(names[i], rng.choice(rules), one or random_type(rng, done), idx[i]) for i in range(n)]
    if choice and rules != [0]:
        k = rng.randrange(n)
        fields[k] = (fields[k][0], 0) + fields[k][2:]
    return dict(name=name, choice=choice, fields=fields, deleted=deleted)


def family():
    """every built-in type under every rule, plain and in arrays, in structs and in choices; wide and sparse declarations"""
    sets = []
    inner = [dict(name='Leaf', choice=False, fields=[('a', 0, ('U64',), 0), ('b', 1, ('String',), 1), ('c', 2, ('Unit',), 2)], deleted=[]),
             dict(name='Pick', choice=True, fields=[('a', 0, ('Unit',), 0), ('b', 1, ('S64',), 1), ('c', 2, ('String',), 2), ('d', 1, ('Unit',), 3), ('e', 2, ('Unit',), 4)], deleted=[]),
             dict(name='Nothing', choice=False, fields=[], deleted=[]), dict(name='Never', choice=True, fields=[], deleted=[])]
    leafs = [(x,) for x in PRIM] + [('Decl', 'main.t', 'Leaf'), ('Decl', 'main.t', 'Pick'), ('Decl', 'main.t', 'Nothing')]
    for choice in (False, True):
        for depth in range(4):
            decls = [dict(d) for d in inner]
            for rule in range(3):
                fields = []
                for i, t in enumerate(leafs):
                    for _ in range(depth):
                        t = ('Arr', t)
                    fields.append(('f%d' % i, rule, t, i))
                if choice and rule:
                    fields.append(('end', 0, ('Unit',), len(fields)))
                decls.append(dict(name='All%d' % rule, choice=choice, fields=fields, deleted=[]))
            sets.append([('main.t', decls)])
    # declarations of several sizes with one rule throughout, each inside a message which has further fields behind it
    for choice in (False, True):
        decls = []
        outer = []
        for n in (1, 2, 3, 4, 5, 6, 9, 16, 33):
            for rule in (0,) if choice else (0, 1, 2):
                name = 'Of%d%s' % (n, 'Qro'[rule])
                decls.append(dict(name=name, choice=choice, fields=[('h%d' % i, rule, (PRIM[(i + n + rule) % 7],), i) for i in range(n)], deleted=[]))
                outer.append(('Decl', 'main.t', name))
        units = [dict(name='Units%d' % r, choice=choice, fields=[('u%d' % i, r, ('Unit',), i) for i in range(5)] + [('n', 2 if not choice else 0, ('U64',), 5)], deleted=[]) for r in range(3)]
        decls += units
        outer += [('Decl', 'main.t', u['name']) for u in units]
        for k in range(0, len(outer), 4):
            fs = [('i%d' % i, i % 3, t, i) for i, t in enumerate(outer[k:k + 4])]
            fs += [('k%d' % i, 2, (PRIM[i % 7],), len(fs) + i) for i in range(34)]
            decls.append(dict(name='Round%d' % k, choice=False, fields=fs, deleted=[]))
        sets.append([('main.t', decls)])
    wide = [('g%d' % i, i % 3, (PRIM[i % 7],), i) for i in range(40)]
    sparse = [('a', 0, ('U64',), 0), ('b', 1, ('String',), 31), ('c', 2, ('Bool',), 32), ('d', 0, ('F64',), 4127), ('e', 0, ('Bytes',), 4128), ('h', 1, ('Arr', ('Unit',)), 4200)]
    gone = [i for i in range(4200) if i not in [x[3] for x in sparse]]
    sets.append([('main.t', [dict(name='Wide', choice=False, fields=wide, deleted=[]), dict(name='WideChoice', choice=True, fields=wide, deleted=[]),
                             dict(name='Sparse', choice=False, fields=sparse, deleted=gone), dict(name='SparseChoice', choice=True, fields=sparse, deleted=gone)])])
    return sets


# ---- glue -----------------------------------------------------------------------------------------------
HELPERS = '''
#![allow(warnings)]
use wireref::{Base, Decl, Field, Ops, Ty, V};
fn u(v: &V) -> u64 { let V::U(x) = v else { panic!() }; *x }
fn s(v: &V) -> i64 { let V::S(x) = v else { panic!() }; *x }
fn f(v: &V) -> f64 { let V::F(x) = v else { panic!() }; f64::from_bits(*x) }
fn b(v: &V) -> bool { let V::B(x) = v else { panic!() }; *x }
fn by(v: &V) -> Vec<u8> { let V::Bytes(x) = v else { panic!() }; x.clone() }
fn st(v: &V) -> String { let V::Str(x) = v else { panic!() }; x.clone() }
fn ar(v: &V) -> &[V] { let V::Arr(x) = v else { panic!() }; x }
fn fd(v: &V) -> &[Option<V>] { let V::Struct(x) = v else { panic!() }; x }
'''
BASE = '''
pub fn verif_base() -> wireref::Base {
    wireref::Base {
        zigzag_encode: |x| zigzag_encode(x), zigzag_decode: |x| zigzag_decode(x), size_from_value: |x| varint_size_from_value(x), size_from_first: |x| varint_size_from_first_byte(x),
        put: |x, w| serialize_varint(x, &mut &mut *w), get: |r| deserialize_varint(&mut &mut *r),
        header_size: |i, s, v| field_header_size(i, s, v), put_header: |w, i, s, v| serialize_field_header(&mut &mut *w, i, s, v), get_header: |r| deserialize_field_header(&mut &mut *r),
    }
}
'''


def rust_type(t, ids):
    if t[0] == 'Arr':
        return 'Ty::Arr(Box::new(%s))' % rust_type(t[1], ids)
    if t[0] == 'Decl':
        return 'Ty::Decl(%d)' % ids[t[1:]]
    return 'Ty::' + {'String': 'Str'}.get(t[0], t[0])


def glue(k, files):
    """Rust text: fn schema_K() -> (decls, base, ops)"""
    ids, decls = {}, []
    for p, ds in files:
        for d in ds:
            ids[(p, d['name'])] = len(decls)
            decls.append((p, d))

    def out(t, v):
        if t[0] == 'Arr':
            return 'ar(%s).iter().map(|v| %s).collect()' % (v, out(t[1], 'v'))
        if t[0] == 'Decl':
            return 'out_%d_%d(%s)' % (k, ids[t[1:]], v)
        return {'Unit': '()', 'F64': 'f(%s)' % v, 'U64': 'u(%s)' % v, 'S64': 's(%s)' % v, 'Bool': 'b(%s)' % v, 'Bytes': 'by(%s)' % v, 'String': 'st(%s)' % v}[t[0]]

    def seen(t, x):
        if t[0] == 'Arr':
            return 'V::Arr(%s.iter().map(|x| %s).collect())' % (x, seen(t[1], 'x'))
        if t[0] == 'Decl':
            return 'in_%d_%d(%s)' % (k, ids[t[1:]], x)
        return {'Unit': 'V::Unit', 'F64': 'V::F(%s.to_bits())' % x, 'U64': 'V::U(*%s)' % x, 'S64': 'V::S(*%s)' % x, 'Bool': 'V::B(*%s)' % x,
                'Bytes': 'V::Bytes(%s.clone())' % x, 'String': 'V::Str(%s.clone())' % x}[t[0]]
    r = []
    ops = []
    for i, (p, d) in enumerate(decls):
        mod = 's%d::%s::' % (k, p[:-2].replace('/', '::'))
        o, n = mod + d['name'] + 'Out', mod + d['name'] + 'In'
        if d['choice']:
            a, b = [], []
            for j, (fname, rule, t, _) in enumerate(d['fields']):
                parts = ([] if t == ('Unit',) else [out(t, 'p')]) + (['Box::new(out_%d_%d(fb.as_ref().unwrap()))' % (k, i)] if rule else [])
                a.append('%d => %s::%s%s,' % (j, o, pascal(fname), '(%s)' % ', '.join(parts) if parts else ''))
                pats = ([] if t == ('Unit',) else ['x']) + (['fb'] if rule == 2 else [])
                b.append('%s::%s%s => V::Choice(%d, Box::new(%s), %s),' % (n, pascal(fname), '(%s)' % ', '.join(pats) if pats else '', j,
                         seen(t, 'x'), 'Some(Box::new(in_%d_%d(fb)))' % (k, i) if rule == 2 else 'None'))
            r.append('fn out_%d_%d(v: &V) -> %s { let V::Choice(c, p, fb) = v else { panic!() }; match c { %s _ => panic!() } }' % (k, i, o, ' '.join(a)))
            r.append('fn in_%d_%d(m: &%s) -> V { match m { %s _ => panic!() } }' % (k, i, n, ' '.join(b)))
        else:
            a, b = [], []
            for j, (fname, rule, t, _) in enumerate(d['fields']):
                a.append('%s: %s,' % (raw(fname), 'fd(v)[%d].as_ref().map(|v| %s)' % (j, out(t, 'v')) if rule == 2 else out(t, 'fd(v)[%d].as_ref().unwrap()' % j)))
                b.append('m.%s.as_ref().map(|x| %s)' % (raw(fname), seen(t, 'x')) if rule else 'Some({ let x = &m.%s; %s })' % (raw(fname), seen(t, 'x')))
            r.append('fn out_%d_%d(v: &V) -> %s { %s { %s } }' % (k, i, o, o, ' '.join(a)))
            r.append('fn in_%d_%d(m: &%s) -> V { V::Struct(vec![%s]) }' % (k, i, n, ', '.join(b)))
        ops.append('''Ops { decl: %d, write: |v, w| { let m = out_%d_%d(v); let size = s%d::Serialize::size(&m); let res = s%d::Serialize::serialize(&m, w); (size, res, in_%d_%d(&m.into())) },
            read: |x| <%s as s%d::Deserialize>::deserialize(x).map(|m| in_%d_%d(&m)) }''' % (i, k, i, k, k, k, i, n, k, k, i))
    ds = ', '.join('Decl { name: "%s", choice: %s, fields: vec![%s] }' % (d['name'], str(d['choice']).lower(), ', '.join(
        'Field { index: %d, rule: %d, ty: %s }' % (x[3], x[1], rust_type(x[2], ids)) for x in d['fields'])) for _, d in decls)
    r.append('fn schema_%d() -> (Vec<Decl>, Base, Vec<Ops>) { (vec![%s], s%d::verif_base(), vec![%s]) }' % (k, ds, k, ', '.join(ops)))
    return '\n'.join(r), [p + ':' + d['name'] for p, d in decls]


def rustc(args, cwd, timeout=300):
    return subprocess.run(['rustc', '--edition', '2021', '--cap-lints', 'allow'] + args, cwd=cwd, env=hx.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


LOCK = threading.Lock()


def library():
    """the reference, compiled once per content"""
    with open(os.path.join(VERIF, 'wire', 'wireref.rs'), 'rb') as f:
        src = f.read()
    d = os.path.join(hx.BUILD, 'wireref-' + hashlib.sha256(src).hexdigest()[:16])
    lib = os.path.join(d, 'libwireref.rlib')
    with LOCK:
        if not os.path.exists(lib):
            os.makedirs(d, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=d)
            r = rustc(['--crate-type', 'rlib', '-C', 'opt-level=2', '--crate-name', 'wireref', os.path.join(VERIF, 'wire', 'wireref.rs'), '-o', os.path.join(tmp, 'libwireref.rlib')], d)
            if r.returncode:
                raise RuntimeError('the reference does not compile: ' + r.stdout.decode()[-500:])
            os.replace(os.path.join(tmp, 'libwireref.rlib'), lib)
            shutil.rmtree(tmp, ignore_errors=True)
    return lib


class Broken(Exception):
    """generation or compilation of a schema set fails"""
    def __init__(self, sets, what):
        self.sets, self.what = sets, what


def build(sets, binary, d):
    """-> path of the driver for the schema sets"""
    lib = library()
    main = HELPERS
    names = []
    for k, files in enumerate(sets):
        code, log = gencode.generate(texts(files), 'main.t', 'rust', binary)
        if code is None:
            raise Broken([files], 'no code is generated: ' + log[-400:])
        with open(os.path.join(d, 's%d.rs' % k), 'w') as f:
            f.write(code.decode() + BASE)
        g, n = glue(k, files)
        main += 'mod s%d;\n' % k + g + '\n'
        names.append(n)
    main += 'fn main() { wireref::main(vec![%s]) }\n' % ', '.join('schema_%d()' % k for k in range(len(sets)))
    with open(os.path.join(d, 'main.rs'), 'w') as f:
        f.write(main)
    exe = os.path.join(d, 'driver')
    r = rustc(['-C', 'opt-level=0', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on', '--extern', 'wireref=' + lib, 'main.rs', '-o', exe], d)
    if r.returncode:
        raise Broken(sets, 'the generated code does not compile: ' + r.stdout.decode(errors='replace')[:600])
    return exe, names


def run_driver(exe, args, timeout, trace=None):
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 8000000; exec "$0" "$@"', exe] + args, stdout=subprocess.PIPE, stderr=trace or subprocess.PIPE, timeout=timeout,
                           env=dict(os.environ, WIRE_TRACE='1') if trace else None)
    except subprocess.TimeoutExpired:
        return None
    return r


TS_KEYWORDS = set("""hasOwnProperty isPrototypeOf propertyIsEnumerable toLocaleString toString valueOf Array ArrayBuffer BigInt DataView Error Number Object RangeError TextDecoder TextEncoder Uint8Array
abstract any as assert asserts async await bigint boolean break case catch class const constructor continue debugger declare default delete do else enum export extends false finally for from function get global if implements import in infer instanceof interface intrinsic is keyof let module namespace never new null number object of override package private protected public readonly require return set static string super switch symbol this throw true try type typeof undefined unique unknown var void while with yield""".split())


def camel(n):
    p = pascal(n)
    p = p[:1].lower() + p[1:]
    return '_' + p if p in TS_KEYWORDS else p


def ns(n):
    p = pascal(n)
    return '_' + p if p in TS_KEYWORDS else p


def names_set():
    """names which mean something else in TypeScript: keywords, globals, members every object has"""
    fs = ['to_string', 'value_of', 'has_own_property', 'is_prototype_of', 'property_is_enumerable', 'to_locale_string', 'constructor',
          'var', 'delete', 'function', 'object', 'string', 'number', 'undefined', 'message', 'size', 'atlas', 'value', 'offset', 'error']
    ds = []
    for i, n in enumerate(['Error', 'Number', 'Object', 'DataView', 'ArrayBuffer', 'BigInt', 'RangeError', 'TextDecoder', 'TextEncoder', 'Uint8Array', 'Array', 'Symbol', 'Field', 'Promise']):
        c = i % 3 == 1
        ds.append(dict(name=n, choice=c, fields=[('own%d' % i, 0, (PRIM[i % 7],), 0), ('more', 2, ('F64',), 1), ('text', 1, ('String',), 2), ('last', 0, ('Arr', ('F64',)), 3), ('units', 0, ('Arr', ('Unit',)), 4)], deleted=[]))
    for c in (False, True):
        for rule in range(3):
            ds.append(dict(name='%sOf%d' % ('Choice' if c else 'Struct', rule), choice=c,
                           fields=[(n, rule, (PRIM[(i + rule) % 7],) if i % 3 else ('Decl', 'main.t', ds[i % 14]['name']), i) for i, n in enumerate(fs)] + [('end', 0, ('Unit',), len(fs))], deleted=[]))
    return [('main.t', ds)]


def ts_schemas(sets):
    """the declarations of each set for wire/tsdrive.js"""
    r = []
    for files in sets:
        flat = [(p, d) for p, ds in files for d in ds]
        ids = {(p, d['name']): i for i, (p, d) in enumerate(flat)}

        def ty(t):
            return ['Arr', ty(t[1])] if t[0] == 'Arr' else ['Decl', ids[tuple(t[1:])]] if t[0] == 'Decl' else list(t)
        r.append([dict(name=ns(d['name']), choice=d['choice'], path=[ns(x) for x in p[:-2].split('/')],
                       fields=[dict(name=camel(f[0]), ty=ty(f[2])) for f in d['fields']]) for p, d in flat])
    return r


def ts_run(sets, binary, d, cases, ms):
    """the cases of the file against the generated TypeScript -> (violation line fields or None, number of cases or None, trouble)"""
    for k, files in enumerate(sets):
        code, log = gencode.generate(texts(files), 'main.t', 'typescript', binary)
        if code is None:
            return None, None, 'no TypeScript is generated: ' + log[-400:]
        with open(os.path.join(d, 's%d.ts' % k), 'wb') as f:
            f.write(code)
    with open(os.path.join(d, 'schemas.json'), 'w') as f:
        json.dump(ts_schemas(sets), f)
    trace = os.path.join(d, 'tstrace')
    try:
        r = subprocess.run(['node', '--max-old-space-size=3000', os.path.join(VERIF, 'wire', 'tsdrive.js'), d, os.path.join(d, 'schemas.json'), cases, trace, str(ms)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ms / 1000 + 40)
        text, trouble = r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')[-300:]
    except subprocess.TimeoutExpired:
        text, trouble = '', 'does not come back'
    for line in text.splitlines():
        x = line.split('\t')
        if x[0] == 'VIOLATION':
            return x[1:], None, ''
        if x[0] == 'DONE':
            return None, int(x[1]), ''
    if os.path.exists(trace):
        with open(trace) as f:
            x = f.readline().rstrip('\n').split('\t')
        if len(x) == 3:
            return x + ['the TypeScript code does not come back: ' + trouble], None, ''
    return None, None, 'the TypeScript side does not run: ' + trouble


def verdict(name, what):
    """which property a case speaks about"""
    kind = what.split(':')[0]
    return {'base': 'c01', 'write': 'c02'}.get(kind)


def search(ctx, name, seed, secs):
    mode = name.split(':')[1]
    binary = ctx.build('cli')
    if not binary:
        return {'unavailable': 'the harness does not build against this tree: ' + ctx.log[-800:]}
    rng = random.Random(seed * 1000 + 7)
    workers = 8
    import msgunit
    fixed = family() + [[('main.t', ds)] for ds in msgunit.family().values()]
    if mode == 'c05':
        fixed = [names_set()] + fixed
    batches = [[] for _ in range(workers)]
    for i, s in enumerate(fixed):
        batches[i % workers].append(s)
    for b in batches:
        while len(b) < 5:
            b.append(random_set(rng))
    reports = [None] * workers
    end = time.time() + secs

    def work(w):
        total = good = schemas = 0
        local = random.Random(seed * 77 + w)
        first = True
        while first or time.time() < end:
            sets = batches[w] if first else [random_set(local) for _ in range(5)]
            first = False
            d = tempfile.mkdtemp(prefix='verif-wire-')
            try:
                try:
                    exe, _ = build(sets, binary, d)
                except Broken as e:
                    bad = e
                    if len(sets) > 1 and len(e.sets) > 1:
                        # which of them
                        for s in sets:
                            t = tempfile.mkdtemp(prefix='verif-wire-')
                            try:
                                build([s], binary, t)
                            except Broken as one:
                                bad = one
                                break
                            finally:
                                shutil.rmtree(t, ignore_errors=True)
                    if mode == 'c02':
                        reports[w] = {'violation': {'input': json.dumps({'files': bad.sets[0], 'case': 'compile:', 'type': 0}), 'message': bad.what}}
                    else:
                        reports[w] = {'unavailable': bad.what}
                    return
                ms = int(min(6 if secs < 120 else 20, max(2, end - time.time())) * 1000)
                s0 = str(local.randrange(1 << 60))
                if mode == 'c05':
                    schemas += len(sets)
                    cases = os.path.join(d, 'cases')
                    with open(cases, 'wb') as f:
                        subprocess.run([exe, mode, s0, str(ms // 2)], stdout=f, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 60)
                    bad, n, trouble = ts_run(sets, binary, d, cases, ms)
                    if bad:
                        reports[w] = {'violation': {'input': json.dumps({'files': sets[int(bad[0])], 'type': int(bad[1]), 'case': bad[2]}), 'message': bad[3]}}
                        return
                    if n is None:
                        reports[w] = {'unavailable': trouble}
                        return
                    total += n
                    good += n
                    continue
                r = run_driver(exe, [mode, s0, str(ms)], ms / 1000 + 60)
                schemas += len(sets)
                text = r.stdout.decode(errors='replace') if r else ''
                for line in text.splitlines():
                    x = line.split('\t')
                    if x[0] == 'VIOLATION':
                        reports[w] = {'violation': {'input': json.dumps({'files': sets[int(x[1])], 'type': int(x[2]), 'case': x[3]}), 'message': x[4]}}
                        return
                    if x[0] == 'DONE':
                        total += int(x[1]); good += int(x[2])
                if 'DONE' not in text and mode != 'c01':
                    # the program was ended: which case was it at?
                    with open(os.path.join(d, 'trace'), 'wb') as f:
                        run_driver(exe, [mode, s0, str(ms)], ms / 1000 + 60, f)
                    with open(os.path.join(d, 'trace'), 'rb') as f:
                        f.seek(max(0, os.path.getsize(f.name) - 300000))
                        last = [x.split('\t') for x in f.read().decode(errors='replace').splitlines() if x.startswith('VIOLATION\t')]
                    if last and len(last[-1]) >= 5:
                        x = last[-1]
                        reports[w] = {'violation': {'input': json.dumps({'files': sets[int(x[1])], 'type': int(x[2]), 'case': x[3]}), 'message': 'the program is ended'}}
                        return
                if 'DONE' not in text:
                    reports[w] = {'unavailable': 'the driver ended abnormally: %s' % ((r.returncode, r.stderr.decode(errors='replace')[-300:]) if r else 'timeout',)}
                    return
            finally:
                shutil.rmtree(d, ignore_errors=True)
        reports[w] = {'total': total, 'good': good, 'schemas': schemas}
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in reports:
        if r and 'violation' in r:
            return {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'violation': r['violation']}
    ok = [r for r in reports if r and 'total' in r]
    if not ok:
        return {'unavailable': next((r['unavailable'] for r in reports if r), 'no report')}
    n = sum(r['total'] for r in ok)
    what = {'c01': ('n64', 'integers, encodings and headers', 'every case'), 'c02': ('values', 'message values', 'every case'),
            'c03': ('bytes', 'messages of other versions', 'the reference accepts the message'), 'c04': ('bytes', 'byte strings', 'the reference accepts the message'), 'c05': ('values', 'messages exchanged with the generated TypeScript', 'every case')}[mode]
    return {'evaluations': n, 'distinct_nontrivial': n if mode == 'c01' else sum(r['good'] for r in ok), 'rule': '%s over %d schema sets; non-trivial: %s' % (what[1], sum(r['schemas'] for r in ok), what[2]),
            'samples': [texts(fixed[0])['main.t'][:400]], 'notes': [r['unavailable'] for r in reports if r and 'unavailable' in r][:2]}


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) and x and isinstance(x[0], str) else x


def replay(ctx, name, text, strict=False):
    """-> message if the case still fails"""
    binary = ctx.build('cli')
    if not binary:
        return None
    c = json.loads(text)
    files = [(p, [dict(d, fields=[(f[0], f[1], tup(f[2]), f[3]) for f in d['fields']]) for d in ds]) for p, ds in c['files']]
    d = tempfile.mkdtemp(prefix='verif-wire-')
    try:
        try:
            exe, _ = build([files], binary, d)
        except Broken as e:
            return e.what if c['case'].startswith('compile:') else None
        if c['case'].startswith('compile:'):
            return None
        if c['case'].startswith('ts'):
            cases = os.path.join(d, 'cases')
            with open(cases, 'wb') as f:
                if c['case'] != 'tscompile:':
                    subprocess.run([exe, 'replay', '0', str(c['type']), c['case'], '0'], stdout=f, stderr=subprocess.DEVNULL, timeout=60)
            bad, _, _ = ts_run([files], binary, d, cases, 20000)
            return bad[3] if bad else None
        r = run_driver(exe, ['replay', '0', str(c['type']), c['case'], '1' if strict else '0'], 30)
        if r is None:
            return 'the reader does not come back within 30 seconds on ' + c['case']
        for line in r.stdout.decode(errors='replace').splitlines():
            x = line.split('\t')
            if x[0] == 'VIOLATION':
                return x[4]
        if r.returncode != 0:
            return 'the program is ended (%d): %s' % (r.returncode, r.stderr.decode(errors='replace')[-200:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
