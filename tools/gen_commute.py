"""Order lemmas for unit builders: for every two setters of a type that write disjoint fields, applying
them in either order gives the same value. Reads the specifications in units/builders_core.rs."""
import os, re, sys
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
TYPES = sys.argv[1].split(',') if len(sys.argv) > 1 else ['RunProperty', 'ParagraphProperty', 'TableProperty', 'TableCellProperty', 'TableRowProperty', 'SectionProperty',
    'FrameProperty', 'RunFonts', 'LineSpacing', 'Pic', 'Run', 'Paragraph', 'Table', 'TableRow', 'TableCell', 'Section', 'Style', 'Level']
text = open(os.path.join(U, 'builders_core.rs')).read()
specs = {}
for m in re.finditer(r'^pub open spec fn sp_(\w+)\(([^\n]*?)\) -> (\w+) \{ (.*) \}$', text, re.M):
    ps = []
    depth = 0
    cur = ''
    for c in m[2]:
        if c in '<(': depth += 1
        if c in '>)': depth -= 1
        if c == ',' and depth == 0:
            ps.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): ps.append(cur.strip())
    specs[m[1]] = (ps, m[3], m[4])

def fields(body, ty):
    """Top-level fields of `T { a: .., b: .., ..this }`."""
    if not body.startswith(ty + ' {') or not body.rstrip().endswith('..this }'): return None
    s = body[len(ty) + 2:]
    out, d, cur, parts = [], 0, '', []
    for c in s:
        if c in '{([<': d += 1
        if c in '})]>': d -= 1
        if c == ',' and d == 0:
            parts.append(cur); cur = ''
        else: cur += c
    for p in parts:
        k, v = p.split(':', 1)
        out.append((k.strip(), v.strip()))
    return out

def paths(name, seen=()):
    ps, ty, body = specs[name]
    fs = fields(body, ty)
    if fs is None or name in seen: return None
    r = set()
    for k, v in fs:
        m = re.match(r'sp_(\w+)\(this\.' + k + r'[,)]', v)
        sub = paths(m[1], seen + (name,)) if m and m[1] in specs and specs[m[1]][0] and specs[m[1]][0][0].startswith('this:') else None
        if sub is None: r.add((k,))
        else: r |= {(k,) + x for x in sub}
    return r

out = ['// Generated by tools/gen_commute.py from the specifications in builders_core.rs.']
n = 0
for ty in TYPES:
    ms = sorted(k for k, (ps, t, b) in specs.items() if t == ty and ps and ps[0] == 'this: ' + ty and k.startswith(ty + '_'))
    ms = [(k, paths(k)) for k in ms]
    ms = [(k, p) for k, p in ms if p]
    for i, (a, pa) in enumerate(ms):
        others = [b for b, pb in ms[i + 1:] if not any(x[:len(y)] == y or y[:len(x)] == x for x in pa for y in pb)]
        if not others: continue
        args, ens = ['s: ' + ty], []
        def call(k, tag, recv):
            ns = []
            for p in specs[k][0][1:]:
                nm, t = p.split(':', 1)
                ns.append((tag + nm.strip(), t.strip()))
            return ns, 'sp_%s(%s)' % (k, ', '.join([recv] + [x for x, _ in ns]))
        na, ca = call(a, 'a_', 's')
        args += ['%s: %s' % x for x in na]
        for j, b in enumerate(others):
            nb, cb = call(b, 'b%d_' % j, 's')
            args += ['%s: %s' % x for x in nb]
            _, ab = call(b, 'b%d_' % j, ca)
            _, ba = call(a, 'a_', cb)
            ens.append('    %s == %s,' % (ab, ba))
            n += 1
        out.append('pub proof fn order_%s(%s)\n  ensures\n%s\n{}' % (a, ', '.join(args), '\n'.join(ens)))
open(os.path.join(U, 'builders_order.rs'), 'w').write('\n'.join(out) + '\n')
print(n, 'pairs', len(out) - 1, 'lemmas')
