"""Code generated by the program of the current tree, for the units that put generated code under contract.

`gen:NAME` in a unit stands for the Rust code that the program (the harness build of /repo/src, which
runs the real command line) generates from /verif/wire/NAME.t at the time of the check.
"""
import os, shutil, subprocess, tempfile
import hx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = {}


def generate(schemas, main, lang='rust', binary=None):
    """schemas: {relative path: text} -> generated code (bytes) or None with the log."""
    if binary is None:
        binary, log = hx.build()
        if binary is None:
            return None, log
    d = tempfile.mkdtemp(prefix='verif-gen-')
    try:
        for p, t in schemas.items():
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as f:
                f.write(t)
        e = hx.env()
        e['HX_CLI'] = '1'
        out = os.path.join(d, 'out.code')
        try:
            r = subprocess.run([binary, 'generate', os.path.join(d, main), '--' + lang, out], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        if r.returncode != 0 or not os.path.exists(out):
            return None, r.stdout.decode(errors='replace')
        with open(out, 'rb') as f:
            return f.read(), ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def text(name):
    if name not in CACHE:
        with open(os.path.join(VERIF, 'wire', name + '.t')) as f:
            t = f.read()
        CACHE[name] = generate({name + '.t': t}, name + '.t')
    return CACHE[name]


def preludes(binary):
    """The code before the first module, over a family of schemas: {text: schema that gives it}."""
    import wire, random
    rng = random.Random(11)
    sets = wire.family() + [wire.random_set(rng) for _ in range(24)]
    r = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        for data, log in pool.map(lambda s: generate(wire.texts(s), 'main.t', 'rust', binary), sets):
            if data is not None:
                t = data.decode().split('\npub mod ')[0] + '\n'
                r.setdefault(t, data)
    return r


def prelude_variants(ctx):
    """Units for the preludes that differ from the one of /verif/wire/prelude.t."""
    binary = ctx.build('cli')
    if not binary:
        return {}
    base, log = text('prelude')
    if base is None:
        return {}
    first = base.decode().split('\npub mod ')[0] + '\n'
    r = head(base.decode())
    return {**r, **{'prelude-%d' % i: ('prelude', {'gen:prelude': t.encode()}) for i, t in enumerate(t for t in preludes(binary) if t != first)}}


def head(code, lang='rust'):
    """The unit which shows that the text of every generated file begins with the prelude of the given one."""
    import re, extract
    i = code.find(MODULE[lang])
    m = re.search(r' by Typical ([\w.+-]*?)\.\n', code[:i + 1])
    if i < 0 or not m:
        return {}
    a, b = (extract.rust_lit(t) for t in (code[:m.start(1)], code[m.end(1):i]))
    d = os.path.join(VERIF, 'build', 'units')
    os.makedirs(d, exist_ok=True)
    unit = {'rust': 'rusthead', 'typescript': 'tshead'}[lang]
    p = os.path.join(d, unit)
    with open(os.path.join(VERIF, 'verus', {'rust': 'rustgen', 'typescript': 'tsgen'}[lang] + '.vspec')) as f:
        t = re.sub(r'(?m)^(@@ include )(\w)', lambda k: k.group(1) + VERIF + '/verus/' + k.group(2), f.read())
    t += """
@@ fn generate_%s::generate
    requires schemas_known(schemas@)
    ensures r@.inside.is_none(), r@.outline.len() == 0 || exists|m: Module| #[trigger] tree_of(m, schemas@) && r@.outline == chars(%s@ + typical_version@ + %s@ + "\\n"@) + contents_items(Seq::empty(), m.children, m.schema),
""" % (lang, a, b)
    tmp = p + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(t)
    os.replace(tmp, p + '.vspec')
    return {unit: (p, {})}


MODULE = {'rust': '\npub mod ', 'typescript': '\nexport namespace '}


def ts_snake(s):
    """a name of the TypeScript code in the text of ts/ts2v.js"""
    import re
    r = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', re.sub(r'^\$', 's_', s)).lower()
    r = 'k' + r if r.startswith('_') else r
    return r + '_' if r in {'type', 'match', 'loop', 'fn', 'ref', 'box', 'move', 'use', 'mod', 'struct', 'impl', 'pub', 'self', 'mut', 'where'} else r


def ts_translate(code, names=None):
    """Generated TypeScript -> the Rust text of ts/ts2v.js, or None with the log."""
    d = tempfile.mkdtemp(prefix='verif-ts-')
    try:
        p = os.path.join(d, 'code.ts')
        with open(p, 'wb') as f:
            f.write(code)
        try:
            args = []
            if names:
                import json
                args = [os.path.join(d, 'names.json')]
                with open(args[0], 'w') as f:
                    json.dump(names, f)
            r = subprocess.run(['node', os.path.join(VERIF, 'ts', 'ts2v.js'), p] + args, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        return (r.stdout if r.returncode == 0 else None), r.stderr.decode(errors='replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ts_variants(ctx):
    """Units for the functions every generated TypeScript file begins with."""
    import wire, random
    binary = ctx.build('cli')
    if not binary:
        return {}
    rng = random.Random(12)
    sets = wire.family() + [wire.random_set(rng) for _ in range(24)]
    heads = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        for data, log in pool.map(lambda s: generate(wire.texts(s), 'main.t', 'typescript', binary), sets):
            if data is not None:
                heads.setdefault(data.decode().split(MODULE['typescript'])[0] + '\n', data)
    r = {}
    for i, (h, data) in enumerate(heads.items()):
        if i == 0:
            r.update(head(data.decode(), 'typescript'))
        t, log = ts_translate(h.encode())
        # Without a translation the unit has no functions, and is UNDECIDED.
        r['tsprelude' + ('-%d' % i if i else '')] = ('tsprelude', {'gen:ts': t if t is not None else b''})
    return r
