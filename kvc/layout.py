"""Member layout of the library's structs, read from the debug info of a compiled driver (names are not relied on)."""
import re, subprocess
B = '/usr/lib/llvm-18/bin/'


def extract(bc):
    """{struct name: (size, [(member name, byte offset, byte size, type name)])} for named structs"""
    r = subprocess.run([B + 'llvm-dis', bc, '-o', '-'], capture_output=True)
    md = {}
    for l in r.stdout.decode('utf8', 'replace').splitlines():
        m = re.match(r'!(\d+) = (?:distinct )?(![A-Z]\w*\(.*|!\{.*)', l)
        if m:
            md[m.group(1)] = m.group(2)

    def fld(t, k):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|!?[\w]+)' % k, t)
        return m.group(1).strip('"') if m else None

    def ref(t, k):
        v = fld(t, k)
        return v[1:] if v and v.startswith('!') else None

    def tyname(i, d=0):
        if i is None or d > 6:
            return 'void', 0
        t = md.get(i, '')
        sz = int(fld(t, 'size') or 0) // 8
        tag = fld(t, 'tag') or ''
        if tag == 'DW_TAG_pointer_type':
            return tyname(ref(t, 'baseType'), d + 1)[0] + '*', 8
        if tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            n, s = tyname(ref(t, 'baseType'), d + 1)
            return n, s
        return fld(t, 'name') or '?', sz
    out = {}
    for i, t in md.items():
        if 'DICompositeType(' not in t[:40] or 'DW_TAG_structure_type' not in t and 'DW_TAG_class_type' not in t:
            continue
        el = ref(t, 'elements')
        n = fld(t, 'name')
        if not n or el is None:
            continue
        mem = []
        for x in re.findall(r'!(\d+)', md.get(el, '')):
            u = md.get(x, '')
            if 'DW_TAG_member' in u and 'DIFlagStaticMember' not in u or 'DW_TAG_inheritance' in u:
                tn, ts = tyname(ref(u, 'baseType'))
                mem.append((fld(u, 'name') or '(base)', int(fld(u, 'offset') or 0) // 8, ts, tn))
        sc = ref(t, 'scope')
        st = md.get(sc, '') if sc else ''
        q = (fld(st, 'name') + '::' if st and fld(st, 'name') else '') + n
        out[q] = (int(fld(t, 'size') or 0) // 8, mem)
    return out


if __name__ == '__main__':
    import sys
    L = extract(sys.argv[1])
    for k in sorted(L):
        if len(sys.argv) < 3 or sys.argv[2] in k:
            print(k, L[k])
