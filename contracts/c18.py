"""C18: the prototypes of the published header are the contracts of the exported functions."""
import glob, json, re, subprocess, time
FN = 'image_palette_recoloring_c'

def cdecls(path):
    """{name: (ret, [params])} of the header, as canonical machine types, from clang's AST."""
    out = {}
    for lang in (['-x', 'c'], ['-x', 'c++']):
        r = subprocess.run(['clang'] + lang + ['-fsyntax-only', '-Xclang', '-ast-dump=json', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise RuntimeError('clang: ' + r.stderr[-400:])
        j = json.loads(r.stdout)
        types = {}
        def walk(n, infile):
            for c in n.get('inner', []) or []:
                k = c.get('kind')
                if k == 'TypedefDecl':
                    types[c['name']] = c['type'].get('desugaredQualType') or c['type']['qualType']
                if k == 'LinkageSpecDecl':
                    walk(c, infile)
                if k == 'FunctionDecl' and not c['name'].startswith('__') and c.get('storageClass') != 'static':
                    ps = [p['type'] for p in c.get('inner', []) or [] if p['kind'] == 'ParmVarDecl']
                    ret = c['type']['qualType'].split('(')[0].strip()
                    out.setdefault(c['name'], []).append((mach(ret, types), [mach(p.get('desugaredQualType') or p['qualType'], types) for p in ps], c['type']['qualType'].endswith('...)')))
        walk(j, True)
    return out

BASE = {'void': 'void', 'unsigned char': 'u8', 'signed char': 'i8', 'char': 'i8', 'unsigned short': 'u16', 'short': 'i16', 'unsigned int': 'u32',
        'int': 'i32', 'unsigned long': 'u64', 'long': 'i64', 'unsigned long long': 'u64', 'long long': 'i64', 'float': 'f32', 'double': 'f64', '_Bool': 'bool', 'bool': 'bool'}
def mach(t, types, depth=0):
    t = re.sub(r'\b(const|volatile|restrict|struct)\b', '', t).strip()
    if t.endswith('*') or t.endswith(']') or '(*' in t: return 'ptr'
    t = ' '.join(t.split())
    if t in BASE: return BASE[t]
    if t in types and depth < 20: return mach(types[t], types, depth + 1)
    return '?' + t

def rust(T, i):
    t = T[i]; k = t['k']
    if k in ('ptr', 'ref'): return 'ptr'
    if k == 'tuple' and not t['elems']: return 'void'
    if k == 'uint': return 'u%d' % t['bits']
    if k == 'int': return 'i%d' % t['bits']
    if k == 'float': return t['f'].lower()
    if k in ('bool',): return 'bool'
    if k == 'adt':
        if t['s'].startswith(('std::option::Option<&', 'std::option::Option<std::boxed::Box', 'std::boxed::Box<', 'std::option::Option<std::ptr::NonNull', 'std::ptr::NonNull<')): return 'ptr'
        if len(t['variants']) == 1 and len(t['variants'][0]['fields']) == 1: return rust(T, t['variants'][0]['fields'][0][1])
    if k == 'never': return 'void'
    return '?' + t['s']

def prove(P):
    d = P.dump(FN); T = d['types']
    P.trust('clang 18 front end (C and C++ parse of the header)', 'rustc_public signatures of the exported functions', 'System V x86-64 C ABI: equal machine types are passed alike')
    heads = sorted(glob.glob(P.repo + '/image-palette-recoloring-c/**/*.h', recursive=True))
    if not heads:
        P.undecided('header', FN, 'no header found'); return
    fns = {}
    for b in d['bodies']:
        if b['crate'] == FN and b['key'] == b['name'].split('::')[-1]:
            fns[b['key']] = b
    for h in heads:
        decl = cdecls(h)
        P.r['vacuity'] += 1
        if not decl:
            P.undecided('header declares functions', h, 'no declaration found'); continue
        for name, variants in sorted(decl.items()):
            where = '%s::%s' % (FN, name)
            t = time.time()
            b = fns.get(name)
            P.ob('%s: declared in the header => exported under that symbol' % name, where, 'discharged' if b else 'refuted', 'structural', time.time() - t,
                 '' if b else 'the header declares %s but the library has no such exported function' % name, concrete=not b)
            if not b: continue
            P.function(where)
            abi = T[b['ty']]['s']
            ok = 'extern "C"' in abi
            P.ob('%s: C calling convention' % name, where, 'discharged' if ok else 'refuted', 'structural', 0, '' if ok else 'defined as ' + abi, concrete=not ok)
            argc = b['argc']
            sig = [rust(T, i) for i in b['locals'][:argc + 1]]
            for ret, ps, var in variants[:1]:
                bad = [x for x in [ret] + ps + sig if x.startswith('?')]
                if bad:
                    P.undecided('%s: types' % name, where, 'type outside the table: %s' % bad); continue
                ok = len(ps) == argc and not var
                P.ob('%s: number of parameters' % name, where, 'discharged' if ok else 'refuted', 'structural', 0, '' if ok else 'header %d, library %d' % (len(ps), argc), concrete=not ok)
                ok = ret == sig[0]
                P.ob('%s: return type' % name, where, 'discharged' if ok else 'refuted', 'structural', 0, '' if ok else 'header %s, library %s' % (ret, sig[0]), concrete=not ok)
                for i, (a, c) in enumerate(zip(ps, sig[1:])):
                    P.ob('%s: parameter %d' % (name, i), where, 'discharged' if a == c else 'refuted', 'structural', 0, '' if a == c else 'header %s, library %s' % (a, c), concrete=a != c)
            if any(v[:2] != variants[0][:2] for v in variants):
                P.ob('%s: one signature in C and C++' % name, where, 'refuted', 'structural', 0, repr(variants), concrete=True)
