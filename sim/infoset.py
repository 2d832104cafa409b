"""
The harness's own view of XML documents: a small infoset, a reader based on expat, converters from native trees and a
writer with a choice of equivalent notations.
"""
import xml.parsers.expat as expat

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NIL = '{%s}nil' % XSI


class Node:
    __slots__ = ('tag', 'attrs', 'text', 'tail', 'kids', 'line', 'idx', 'mixed')

    def __init__(self, tag, attrs=None, text=None, kids=None, tail=None, line=-1):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.text = text
        self.tail = tail
        self.kids = kids if kids is not None else []
        self.line = line
        self.idx = 0  # reading position
        self.mixed = False  # white space inside is significant

    def copy(self):
        n = Node(self.tag, self.attrs, self.text, [k.copy() for k in self.kids], self.tail, self.line)
        n.idx = self.idx
        n.mixed = self.mixed
        return n

    def take(self, other):
        """Becomes what `other` is."""
        self.tag, self.attrs, self.text, self.tail = other.tag, other.attrs, other.text, other.tail
        self.kids, self.idx = other.kids, other.idx

    def to_json(self):
        return [self.tag, dict(sorted(self.attrs.items())), self.text or '', [k.to_json() for k in self.kids],
                self.tail or '']

    @classmethod
    def from_json(cls, j):
        return cls(j[0], j[1], j[2] or None, [cls.from_json(k) for k in j[3]], j[4] or None)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def size(self):
        return sum(1 for _ in self.walk())

    def __repr__(self):
        return repr(self.to_json())


def canon(node):
    """Comparable form: empty and missing text are the same."""
    return (node.tag, tuple(sorted(node.attrs.items())), node.text or '', tuple(canon(k) for k in node.kids),
            node.tail or '')


def from_native(el):
    """From an lxml or ElementTree element; comments and processing instructions are not part of the infoset."""
    node = Node(el.tag, {str(k): v if isinstance(v, str) else v.decode() for k, v in el.attrib.items()},
                el.text, [], el.tail, getattr(el, 'sourceline', None) or -1)
    for sub in el:
        if isinstance(sub.tag, str):
            node.kids.append(from_native(sub))
        elif sub.tail:
            if node.kids:
                node.kids[-1].tail = (node.kids[-1].tail or '') + sub.tail
            else:
                node.text = (node.text or '') + sub.tail
    return node


def to_native(etree, node):
    el = etree.Element(node.tag, dict(node.attrs))
    el.text = node.text
    el.tail = node.tail
    for k in node.kids:
        el.append(to_native(etree, k))
    return el


def _clark(name):
    return '{' + name if '}' in name else name


def parse(data):
    """Reads a document with expat. Raises expat.ExpatError if it is not well-formed."""
    p = expat.ParserCreate(namespace_separator='}')
    p.buffer_text = True
    p.ordered_attributes = False
    stack, root = [], []

    def start(name, attrs):
        n = Node(_clark(name), {_clark(k): v for k, v in attrs.items()}, line=p.CurrentLineNumber)
        if stack:
            stack[-1].kids.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(name):
        stack.pop()

    def chars(data):
        n = stack[-1]
        if n.kids:
            n.kids[-1].tail = (n.kids[-1].tail or '') + data
        else:
            n.text = (n.text or '') + data

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    return root[0]


# writing -------------------------------------------------------------------------------------------------------------


class Plain:
    """The plain notation."""
    decl = False
    encoding = 'utf-8'
    newline_indent = False

    def choose(self, kind):
        return False

    def pick(self, kind, options):
        return options[0]


class Wild:
    """A random neutral notation: every choice XML leaves open is drawn from the generator."""

    def __init__(self, rng, rates):
        self.rng, self.rates, self.used = rng, rates, {}
        self.encoding = rng.choice(['utf-8', 'utf-8-sig', 'utf-16', 'utf-16-be', 'utf-16-le', 'iso-8859-1', 'us-ascii']) \
            if rates.get('encoding', 0) and rng.random() < rates['encoding'] else 'utf-8'

    def choose(self, kind):
        if self.rng.random() < self.rates.get(kind, 0):
            self.used[kind] = self.used.get(kind, 0) + 1
            return True
        return False

    def pick(self, kind, options):
        return self.rng.choice(options)


def _split(clark):
    if clark[0] == '{':
        ns, tag = clark[1:].split('}', 1)
        return ns, tag
    return None, clark


def encodable(text, encoding):
    try:
        text.encode(encoding)
    except UnicodeEncodeError:
        return False
    return True


def _esc_text(s, style):
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '\r' or style.choose('charref'):
            out.append('&#x%x;' % ord(ch) if style.pick('x', [True, False]) else '&#%d;' % ord(ch))
        elif ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        else:
            out.append(ch)
        i += 1
    return ''.join(out)


def _esc_attr(s, q, style):
    out = []
    for ch in s:
        if ch in '\r\n\t' or style.choose('charref'):
            out.append('&#%d;' % ord(ch))
        elif ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif ch == q:
            out.append('&quot;' if q == '"' else '&apos;')
        else:
            out.append(ch)
    return ''.join(out)


# (xml.etree takes the second part of a long entity declaration for an entity if it begins with an ampersand)
ENTITY = 40
DECLARED = {'utf-8-sig': 'utf-8', 'utf-16-be': 'utf-16', 'utf-16-le': 'utf-16'}


class Writer:
    """Writes an infoset; records the line every element starts on (as the parsers report it)."""

    def __init__(self, style, prefixes=None):
        self.style = style
        self.entities = []
        self.parts = []
        self.line = 1
        self.prefixes = prefixes or {}

    def emit(self, s):
        self.parts.append(s)
        self.line += s.count('\n')

    def misc(self, kind):
        st = self.style
        if st.choose('comment'):
            self.emit('<!--%s-->' % st.pick('c', [' note ', '', 'a\nb', ' <x a="1">y</x> ', ' & ']))
        if st.choose('pi'):
            self.emit('<?%s?>' % st.pick('p', ['pi', 'pi data', 'render <x/>', 'a\nb']))

    def chars(self, text, node_may_split=True):
        st = self.style
        i = 0
        while i < len(text):
            n = len(text) - i
            if n > 1 and st.choose('split'):
                n = 1 + int(st.rng.random() * (n - 1))
            piece = text[i:i + n]
            i += n
            if n <= ENTITY and st.choose('entity'):
                self.emit(self.entity(piece))
            elif ']]>' not in piece and '\r' not in piece and st.choose('cdata') and encodable(piece, st.encoding):
                self.emit('<![CDATA[' + piece + ']]>')
            else:
                self.emit(_esc_text(piece, st))
            if i < len(text):
                self.misc('in')

    def entity(self, text):
        # every character that could be taken for markup is escaped twice: it is still a reference when the entity is used
        value = ''.join(c if c.isascii() and c.isalnum() else '&#38;#%d;' % ord(c) for c in text)
        if value not in self.entities:
            self.entities.append(value)
        return '&e%d;' % self.entities.index(value)

    def ws(self):
        if self.style.choose('ws'):
            self.emit(self.style.pick('w', [' ', '\n', '\n  ', '\t', '\n\n']))

    def element(self, node, scope, default_ns):
        st = self.style
        scope = dict(scope)
        decls = []

        def prefix_for(uri, attr):
            nonlocal default_ns
            if uri is None:
                return ''
            if uri == 'http://www.w3.org/XML/1998/namespace':
                return 'xml:'
            if not attr and default_ns == uri and not st.choose('prefix'):
                return ''
            for p, u in scope.items():
                if u == uri and not st.choose('prefix'):
                    return p + ':'
            if not attr and default_now[0] is None and not st.choose('prefix') and want_default(uri):
                default_ns = uri
                default_now[0] = uri
                decls.append(('xmlns', uri))
                return ''
            p = self.prefixes.get(uri) or 'p'
            k = 0
            name = p
            while scope.get(name, uri) != uri or any(d == 'xmlns:' + name for d, _ in decls) and scope.get(name) != uri:
                k += 1
                name = f'{p}{k}'
            if st.choose('prefix'):
                name = st.pick('p', ['a', 'zz', 'ns0', 'x1', '_q'])
                while scope.get(name, uri) != uri:
                    name += '_'
            if scope.get(name) != uri:
                scope[name] = uri
                decls.append(('xmlns:' + name, uri))
            return name + ':'

        default_now = [None]

        def want_default(uri):
            return st.choose('default_ns')

        ns, tag = _split(node.tag)
        if ns is None and default_ns is not None:
            default_ns = None
            default_now[0] = ''
            decls.append(('xmlns', ''))
            name = tag
        else:
            name = prefix_for(ns, False) + tag
        attrs = []
        for k, v in node.attrs.items():
            ans, atag = _split(k)
            attrs.append((prefix_for(ans, True) + atag, v))
        items = decls + attrs
        if st.choose('shuffle'):
            st.rng.shuffle(items)
        # parsers report different lines for a start tag that spans lines: keep it on one line
        node.line = self.line
        self.emit('<' + name)
        for k, v in items:
            q = '"' if not st.choose('quote') else "'"
            self.emit((' ' if not st.choose('tagws') else '   ') + k + ('=' if not st.choose('tagws') else ' = ')
                      + q + (_esc_attr(v, q, st) if not 0 < len(v) <= ENTITY or not st.choose('entity') else self.entity(v)) + q)
        if st.choose('tagws'):
            self.emit(' ')
        if not node.text and not node.kids and not st.choose('emptytag'):
            self.emit('/>')
            return
        self.emit('>')
        # ignorable white space only in pure element content
        pure = not (node.text or '').strip() and not any((k.tail or '').strip() for k in node.kids) and node.kids
        pure = pure and not node.mixed and not node.text and not any(k.tail for k in node.kids)
        self.misc('first')
        if node.text:
            self.chars(node.text)
            self.misc('text')
        if pure:
            self.ws()
        for k in node.kids:
            self.element(k, scope, default_ns)
            if k.tail:
                self.misc('tail')
                self.chars(k.tail)
            elif pure:
                self.ws()
            self.misc('kid')
            if pure and st.choose('ws'):
                self.ws()
        self.emit('</' + name + (' ' if st.choose('tagws') else '') + '>')

    def document(self, node):
        st = self.style
        enc = st.encoding
        if not all(encodable(name, enc) for n in node.walk() for name in (n.tag, *n.attrs)):
            enc = st.encoding = 'utf-8'
        if enc != 'utf-8' or st.choose('decl'):
            self.emit('<?xml version=%s encoding="%s"?>' % (st.pick('v', ['"1.0"']), DECLARED.get(enc, enc)))
            if st.choose('ws'):
                self.emit('\n')
        self.misc('prolog')
        at = len(self.parts)
        self.element(node, {}, None)
        if self.entities or st.choose('doctype'):
            subset = ''.join('<!ENTITY e%d "%s">' % (n, value) for n, value in enumerate(self.entities))
            self.parts.insert(at, '<!DOCTYPE doc%s>' % (' [%s]' % subset if subset else ''))
        self.misc('epilog')
        if st.choose('ws'):
            self.emit('\n')
        text = ''.join(self.parts)
        if enc in ('utf-8', 'utf-8-sig'):
            return text.encode(enc)
        if enc in ('utf-16-be', 'utf-16-le'):
            return ('\ufeff' + text).encode(enc)
        return text.encode(enc, 'xmlcharrefreplace')


def write(node, style=None, prefixes=None):
    """The document as bytes. Sets node.line on every element."""
    return Writer(style or Plain(), prefixes).document(node)


def write_pretty(node, prefixes=None):
    """A document with every element on a line of its own (element content only), to tell source lines apart."""
    class Lines(Plain):
        def choose(self, kind):
            return kind == 'ws'

        def pick(self, kind, options):
            return '\n' if kind == 'w' else options[0]
    return Writer(Lines(), prefixes).document(node)
