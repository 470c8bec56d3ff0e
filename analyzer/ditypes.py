"""Record layouts of the library's classes, read from the debug-info metadata of the lowered unit."""
import re

_attr = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]+|[^,()]+)')


class DI:
    def __init__(self, path):
        self.nodes = {}
        self.byname = {}
        self.sub = {}
        node = re.compile(r'^!(\d+) = (?:distinct )?!(DICompositeType|DIDerivedType|DIBasicType|DINamespace|DIEnumerator)\((.*)\)$')
        tup = re.compile(r'^!(\d+) = (?:distinct )?!\{(.*)\}$')
        self.tuples = {}
        with open(path) as f:
            for line in f:
                if not line.startswith('!'):
                    continue
                m = node.match(line)
                if m:
                    self.nodes[int(m.group(1))] = (m.group(2), m.group(3))
                    continue
                m = tup.match(line)
                if m:
                    self.tuples[int(m.group(1))] = m.group(2)
        self._parsed = {}
        for k, (kind, body) in self.nodes.items():
            if kind == 'DICompositeType' and 'elements:' in body and ('tag: DW_TAG_class_type' in body or 'tag: DW_TAG_structure_type' in body):
                m = re.search(r'name: "((?:[^"\\]|\\.)*)"', body)
                if m:
                    self.byname.setdefault(m.group(1), []).append(k)

    def get(self, k):
        p = self._parsed.get(k)
        if p is None:
            kind, body = self.nodes[k]
            p = {'kind': kind}
            for m in _attr.finditer(body):
                v = m.group(2)
                p[m.group(1)] = v.strip('"') if v.startswith('"') else v.strip()
            self._parsed[k] = p
        return p

    def ref(self, s):
        return int(s[1:]) if s and s.startswith('!') and s[1:].isdigit() else None

    def qual(self, k):
        p = self.get(k)
        n = p.get('name', '')
        s = self.ref(p.get('scope'))
        if s is not None and s in self.nodes:
            q = self.qual(s)
            return q + '::' + n if q else n
        return n

    def strip(self, k):
        """through typedefs / cv"""
        while k is not None and k in self.nodes:
            p = self.get(k)
            if p['kind'] == 'DIDerivedType' and p.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                k = self.ref(p.get('baseType'))
            else:
                return k
        return k

    def tname(self, k):
        k = self.strip(k)
        if k is None or k not in self.nodes:
            return 'void'
        p = self.get(k)
        if p['kind'] == 'DIDerivedType' and p.get('tag') == 'DW_TAG_pointer_type':
            return self.tname(self.ref(p.get('baseType'))) + '*'
        return p.get('name', p.get('tag', '?'))

    def members(self, k, base=0):
        """[(name, byte offset, type id)] of a record, including base classes"""
        p = self.get(k)
        out = []
        e = self.ref(p.get('elements'))
        if e is None:
            return out
        for r in self.tuples.get(e, '').split(','):
            r = self.ref(r.strip())
            if r is None or r not in self.nodes:
                continue
            m = self.get(r)
            if m['kind'] != 'DIDerivedType':
                continue
            if m.get('tag') == 'DW_TAG_inheritance':
                out += self.members(self.strip(self.ref(m['baseType'])), base + int(m.get('offset', '0')) // 8)
            elif m.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in m.get('flags', '') and 'flags' in m and 'StaticMember' in m['flags']:
                continue
            elif m.get('tag') == 'DW_TAG_member' and 'StaticMember' not in m.get('flags', ''):
                out.append((m.get('name', ''), base + int(m.get('offset', '0')) // 8, self.ref(m.get('baseType'))))
        return out

    def record(self, name):
        """record type by (unqualified, template args included) name or prefix 'X<'"""
        c = self.byname.get(name)
        if not c:
            c = [k for n, ks in self.byname.items() if n.startswith(name) for k in ks]
        if not c:
            from llvmir import AnalysisError
            raise AnalysisError('record type %s is not in the unit' % name)
        return c[0]

    def layout(self, name):
        return {n: o for n, o, t in self.members(self.record(name))}

    def enum(self, name):
        """{enumerator: value} of an enumeration type"""
        for k, (kind, body) in self.nodes.items():
            if kind == 'DICompositeType' and 'DW_TAG_enumeration_type' in body and 'name: "%s"' % name in body:
                e = self.ref(self.get(k).get('elements'))
                out = {}
                for r in self.tuples.get(e, '').split(','):
                    r = self.ref(r.strip())
                    if r in self.nodes and self.nodes[r][0] == 'DIEnumerator':
                        m = self.get(r)
                        out[m['name']] = int(m['value'])
                if out:
                    return out
        from llvmir import AnalysisError
        raise AnalysisError('enumeration %s is not in the unit' % name)

    def size(self, k):
        k = self.strip(k)
        return int(self.get(k).get('size', '0')) // 8

    def path_at(self, k, off):
        """dotted member path at byte offset off of record k (best effort, for reports)"""
        k = self.strip(k)
        out = []
        while k is not None and k in self.nodes and self.get(k)['kind'] == 'DICompositeType':
            best = None
            for n, o, t in self.members(k):
                if o <= off and (best is None or o >= best[1]):
                    best = (n, o, t)
            if not best:
                break
            if best[0]:
                out.append(best[0])
            off -= best[1]
            k = self.strip(best[2])
        return '.'.join(out) + ('+%d' % off if off else '')
