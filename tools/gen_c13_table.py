"""Turns the output of `vharness C13-table` into harness/data/c13.json (reviewed by hand, then committed).
Clearing a border leaves the rest of that border open; `indent` replaces the whole group."""
import json, os, re, sys
t = json.load(open(sys.argv[1]))
out = {}
for k, m in t.items():
    name = k.split('::')[1].split(' ')[0]
    if name.startswith('clear'):
        r = {}
        for p, v in m.items():
            q, f = p.rsplit('/', 1)
            if f in ('border_type', 'val'):
                assert v == '="Nil"', (k, p, v)
                r[p] = v
                r[q] = '?'
        m = r
    if name == 'indent' and any(p.endswith('/special_indent') for p in m):
        g = [p[:-len('/special_indent')] for p in m if p.endswith('/special_indent')][0]
        m[g + '/first_line_chars'] = m[g + '/hanging_chars'] = '-'
    if name == 'add_footnote_reference':
        m['/children[+]/FootnoteReference/content'] = '$0/content'
        m['/children[+]/FootnoteReference/id'] = '$0/id'
    if k.startswith('Docx::') and ('header' in name or 'footer' in name):
        # numbering of the part and its entries in the package: properties C06 and C07
        m['/document/section_property/%s_reference' % name] = m['/document/section_property/%s/0' % name] = '?'
        m['/document_rels'] = m['/content_type'] = '?'
    if k == 'Docx::taskpanes': m = {'/rels': '?', '/content_type': '?', '/taskpanes': m['/taskpanes']}
    if k == 'Docx::custom_property': m = {'/doc_props/custom': '?'}
    if k == 'Docx::comments_extended': m = {'/comments_extended': '$0'}
    if k == 'Docx::add_section': m = {x: '?' for x in ('/document/children[+]/Section', '/document_rels', '/content_type', '/settings/even_and_odd_headers')}
    if not m: print('empty', k)
    out[k] = m
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'data', 'c13.json')
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
print(len(out), 'entries')
