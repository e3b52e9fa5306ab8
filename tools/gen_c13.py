"""Writes harness/src/c13_gen.rs: random values and random builder calls for the public builder types.
Usage: vx --src /repo/docx-core/src --api 1 > api.json; gen_c13.py api.json"""
import json, os, sys
d = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
SKIP_T = {'ContentTypes', 'CoreProps', 'CustomItemRels', 'CustomProps', 'DocProps', 'DocumentRels', 'FooterRels', 'HeaderRels', 'Rels', 'TaskpanesRels', 'WebExtension',
          'WpAnchor', 'WpsShape', 'WpsTextBox', 'AGraphic', 'AGraphicData', 'Shape', 'XMLDocx', 'Comments', 'Numberings'}
SKIP_M = {('Docx', 'add_custom_item')}  # its argument has to be XML
BASIC = {'String', 'usize', 'u32', 'i32', 'isize', 'bool', 'u16', 'f32'}
CTOR = {  # constructor expression when `new` is absent, ambiguous or needs care
    'Pic': 'Pic::new_with_dimensions(vec![1, 2, 3], 10, 20)',
    'Insert': 'Insert::new_with_empty()', 'MoveTo': 'MoveTo::new_with_empty()',
    'TableRow': 'TableRow::new(vec![])', 'Table': 'Table::new(vec![])',
    'Level': 'Level::new(g.arb::<usize>() % 9, Start::new(g.arb()), NumberFormat::new(g.arb::<String>()), LevelText::new(g.arb::<String>()), LevelJc::new(g.arb::<String>()))',
    'Hyperlink': 'Hyperlink::new(g.arb::<String>(), HyperlinkType::Anchor)',
    'NumberingId': 'NumberingId::new(g.arb())', 'IndentLevel': 'IndentLevel::new(g.arb())',
    'StyleWithLevel': 'StyleWithLevel::new(g.arb::<String>(), g.arb())' , 'Sym': 'Sym::new(g.arb::<String>(), g.arb::<String>())',
    'PageNum': 'PageNum::new()', 'NumPages': 'NumPages::new()', 'Footnote': '{ let mut f = Footnote::new(); if g.below(2) == 0 { f.add_content(Paragraph::new().add_run(Run::new().add_text(g.arb::<String>()))); } f }',
}
types, enums = d['types'], d['enums']
supported = set(BASIC) | set(enums) | set(CTOR) | {'SpecialIndentType', 'DrawingPosition'}
live = {t: x for t, x in types.items() if t not in SKIP_T and x['methods']}

def norm(t):
    if t in ('impl Into<String>', '&str'): return 'String'
    if t.startswith('&[') : return 'Vec<%s>' % t[2:-1]
    return t
def ok(t):
    t = norm(t)
    for w in ('Option<', 'Vec<'):
        if t.startswith(w): return ok(t[len(w):-1])
    return t in supported
# constructors to a fixpoint
ctor = dict(CTOR)
for _ in range(5):
    for t, x in types.items():
        if t in ctor or t in SKIP_T: continue
        if 'new' in x['ctors'] and all(ok(a) for a in x['ctors']['new']):
            args = []
            for a in x['ctors']['new']:
                args.append(('&g.arb::<%s>()' if a.startswith('&') else 'g.arb::<%s>()') % norm(a))
            ctor[t] = '%s::new(%s)' % (t, ', '.join(args))
            supported.add(t)
o = ['//! Generated by tools/gen_c13.py: random values and builder calls.', '#![allow(clippy::all)]', '#![allow(deprecated, unused_imports, unused_variables)]', 'use crate::c13::{view, Arb, Hidden, Shown, Step, G, J};', 'use docx_rs::*;', 'use serde_json::{json, Value};', '']
for e, vs in enums.items():
    if e in ('Error', 'ReaderError', 'DocxError', 'ParagraphPropertyChangeKind'): continue
    used = any(norm(a).strip('>').endswith(e) for x in types.values() for m, as_ in x['methods'] for a in as_) or any(e in norm(a) for x in types.values() for a in x['ctors'].get('new', []))
    if not used: continue
    o.append('impl Arb for %s {\n    fn arb(g: &mut G) -> Self {\n        match g.below(%d) {\n%s\n            _ => %s::%s,\n        }\n    }\n}' % (
        e, len(vs), '\n'.join('            %d => %s::%s,' % (i, e, v) for i, v in enumerate(vs[:-1])), e, vs[-1]))
bad = []
need = set(ctor) - {'TableOfContents'} | {'TableOfContents'}
used = set()
def walk(t):
    t = norm(t)
    for w in ('Option<', 'Vec<'):
        if t.startswith(w): return walk(t[len(w):-1])
    if t in used or t not in ctor: return
    used.add(t)
    for a in types.get(t, {}).get('ctors', {}).get('new', []): walk(a)
    for m, as_ in types.get(t, {}).get('methods', []):
        if all(ok(a) for a in as_):
            for a in as_: walk(a)
for t in sorted(live): walk(t)
steps = []
for t in sorted(used):
    ms = []
    for m, as_ in types.get(t, {}).get('methods', []):
        if t in SKIP_T or (t, m) in SKIP_M: continue
        if all(ok(a) for a in as_): ms.append((m, as_))
        else: bad.append('%s::%s%s' % (t, m, as_))
    if ms:
        o.append('impl Arb for %s {\n    fn arb(g: &mut G) -> Self {\n        let x = %s;\n        g.vary(x)\n    }\n}' % (t, ctor[t]))
        arms = []
        for i, (m, as_) in enumerate(ms):
            lets, js, call = [], [], []
            for k, a in enumerate(as_):
                special = ' % 10' if m == 'outline_lvl' else ''
                lets.append('let a%d: %s = g.arb()%s;' % (k, norm(a), special) if not special else 'let a%d: %s = g.arb::<usize>() %% 10;' % (k, norm(a)))
                js.append('json!([view(&a%d), (&&J(&a%d)).shown()])' % (k, k))
                call.append(('&a%d' if a.startswith('&') else 'a%d') % k)
            arms.append('            %d => {\n                %s\n                let j = vec![%s];\n                (self.%s(%s), "%s", j)\n            }' % (i, '\n                '.join(lets), ', '.join(js), m, ', '.join(call), m))
        o.append('impl Step for %s {\n    const N: usize = %d;\n    const T: &\'static str = "%s";\n    fn step(self, i: usize, g: &mut G) -> (Self, &\'static str, Vec<Value>) {\n        match i {\n%s\n            _ => unreachable!(),\n        }\n    }\n}' % (t, len(ms), t, '\n'.join(arms)))
        steps.append(t)
    else:
        o.append('impl Arb for %s {\n    fn arb(g: &mut G) -> Self {\n        %s\n    }\n}' % (t, ctor[t]))
o.append('pub fn all(f: &mut dyn FnMut(&str, fn(&mut G) -> Vec<crate::c13::Call>)) {\n%s\n}' % '\n'.join('    f("%s", crate::c13::calls::<%s>);' % (t, t) for t in steps))
open(os.path.join(here, '..', 'harness', 'src', 'c13_gen.rs'), 'w').write('\n'.join(o) + '\n')
print(len(steps), 'types; unsupported:', bad)
