"""C34: Markdown converts to the document it describes."""
import hashlib
import os
import string
from pbt.lang import Sym, show_str
from pbt.libcheck import LibCheck

PRE = '''
(defun md-case (path) (do (vt#emit (cora/lib/md4c/include#process-file path)) 'ok))
'''
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
TAGS = {'blockquote', 'ul', 'ol', 'li', 'hr', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'pre', 'code', 'p', 'em', 'strong', 'a', 'img', 'del',
        'br', 'input', 'table', 'thead', 'tbody', 'tr'}
TOK = ['*', '**', '_', '__', '`', '``', '```', '~', '~~', '~~~', '#', '## ', '> ', '>', '- ', '+ ', '* ', '1. ', '2) ', '[', ']', '(', ')', '](', '![', '<', '>',
       '<http://a>', '<!--', '-->', '<a b="c">', '</a>', '<script>', '<?', '&amp;', '&#65;', '&', ';', '\\', '\\\n', '  \n', '\n', '\n', '\n\n', '\n    ', '\t', '    ',
       '---', '***', '===', '|', '|-|-|', 'a', 'word', ' ', ' ', '[x]: /u "t"\n', '[x]', '[ ] ', '[x] ', '"', "'", '=', ':', '\r\n', '\r', '\xc3\xa9', '\xff', '\x00', '\xe2\x80\x83']


# ---- the document: nested lists/tuples ------------------------------------
# expected trees are (Sym tag, child...) as lists; text as bytes

def el(tag, attrs, kids):
    e = [Sym(tag)]
    if attrs:
        e.append([Sym('@')] + attrs)
    return e + kids


def merge(x):
    """Adjacent pieces of text are one, an empty piece is none."""
    if not isinstance(x, list) or x[:1] == [Sym('@')] and isinstance(x[0], Sym):
        return x
    out = []
    for y in x:
        y = merge(y)
        if isinstance(y, bytes):
            if y == b'':
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] += y
                continue
        out.append(y)
    return out


def parse(s):
    """The driver's text of a tree."""
    st, i, n = [[]], 0, len(s)
    while i < n:
        c = s[i]
        if c == '(':
            st.append([])
            i += 1
        elif c == ')':
            x = st.pop()
            st[-1].append(x)
            i += 1
        elif c == '"':
            b = bytearray()
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    if s[i + 1] == 'x':
                        b.append(int(s[i + 2:i + 4], 16))
                        i += 4
                        continue
                    i += 1
                b.append(ord(s[i]))
                i += 1
            st[-1].append(bytes(b))
            i += 1
        elif c in ' \n':
            i += 1
        else:
            j = i
            while j < n and s[j] not in ' ()"\n':
                j += 1
            w = s[i:j]
            st[-1].append(int(w) if w.lstrip('-').isdigit() else Sym(w))
            i = j
    return st[0][0]


def text(x):
    if isinstance(x, bytes):
        return show_str(x)
    if isinstance(x, list):
        return '(' + ' '.join(text(y) for y in x) + ')'
    return str(x)


class Gen:
    def __init__(self, t):
        self.t = t
        self.refs = []
        self.n = 0
        self.kinds = set()

    # ---- inline: -> (markdown, [expected]) ----
    def word(self):
        t = self.t
        w = ''.join(t.pick(string.ascii_letters) for _ in range(t.between(1, 6)))
        k = t.below(10)
        if k == 0:
            w += ''.join(chr(t.pick([0xe9, 0x3b1, 0x4e2d, 0x1f600])) for _ in range(t.between(1, 3)))
        elif k == 1:
            w += str(t.below(1000))
        return w

    def words(self, multi=True):
        """Text that starts and ends with a letter, and its source."""
        t = self.t
        src, ex = '', b''
        for i in range(t.between(1, 4)):
            if i:
                if multi and t.bool(1, 6):
                    src += '\n'
                    ex += b'\n'
                    self.kinds.add('soft break')
                else:
                    src += ' '
                    ex += b' '
            w = self.word()
            src += w
            ex += w.encode()
            while t.bool(1, 5):
                # an escaped character inside the text
                c = t.pick(PUNCT)
                w = self.word()
                src += '\\' + c + w
                ex += (c + w).encode()
        return src, ex

    def inline(self, d, link=True, multi=True, nodel=False):
        """A run of inline content between letters."""
        t = self.t
        s, e = self.words(multi)
        src, out = s, [e]
        self.n += 1
        for _ in range(t.below(4) if d > 0 else 0):
            k = t.weighted([(3, 'em'), (3, 'strong'), (0 if nodel else 2, 'del'), (3, 'code'), (3 if link else 0, 'a'), (2 if d > 1 else 0, 'img'), (2 if multi else 0, 'br'),
                            (1 if link else 0, 'auto')])
            self.kinds.add(k)
            self.n += 1
            sep = ' '
            if k == 'em' or k == 'strong':
                s, e = self.inline(d - 1, link, multi, nodel)
                m = self.mark * (1 if k == 'em' else 2)
                self.mark = '_' if self.mark == '*' else '*'
                s, e = m + s + m, [el(k, [], e)]
            elif k == 'del':
                s, e = self.inline(d - 1, link, multi, True)
                m = t.pick(['~~', '~'])
                s, e = m + s + m, [el('del', [], e)]
            elif k == 'code':
                s, e = self.code()
            elif k == 'a':
                s, e = self.inline(d - 1, False, multi, nodel)
                u, a = self.target('href')
                s, e = '[' + s + ']' + u, [el('a', a, e)]
            elif k == 'img':
                s, e = self.inline(d - 2, False, multi, nodel)
                u, a = self.target('src')
                s, e = '![' + s + ']' + u, [el('img', a, e)]
            elif k == 'auto':
                u = 'http://' + self.word() + t.pick(['', '/?a=b&c=d', '/%20#x', '/*a*_b_`c`'])
                u = u.encode('ascii', 'ignore').decode()
                s, e = '<' + u + '>', [el('a', [[Sym('href'), u.encode()]], [u.encode()])]
            else:
                s, e = t.pick(['\\\n', '  \n', '    \n']), [[Sym('br')]]
                sep = ''
            src += sep + s
            out += [sep.encode()] + e
            sep = '' if k == 'br' else ' '
            s, e = self.words(multi)
            src += sep + s
            out += [sep.encode(), e]
        return src, out

    def code(self):
        t = self.t
        b = ''.join(t.pick(string.ascii_letters + ' ' * 6 + PUNCT + '```') for _ in range(t.between(1, 12)))
        if not b.strip(' '):
            b = 'a'
        run = 0
        runs = set()
        for c in b + ' ':
            if c == '`':
                run += 1
            elif run:
                runs.add(run)
                run = 0
        n = t.between(1, 3)
        while n in runs:
            n += 1
        pad = b[0] == '`' or b[-1] == '`' or (b[0] == ' ' and b[-1] == ' ') or t.bool(1, 4)
        if pad and not (b[0] == ' ' and b[-1] == ' ' and b.strip(' ') == ''):
            s = '`' * n + ' ' + b + ' ' + '`' * n
        else:
            s = '`' * n + b + '`' * n
        return s, [el('code', [], [b.encode()])]

    def target(self, key):
        t = self.t
        k = t.below(8)
        if k == 0:
            u, src = '', t.pick(['', '<>'])
        elif k == 1:
            u = ''.join(t.pick('abc /=(') for _ in range(t.between(1, 10)))
            src = '<' + u + '>'
        else:
            u = t.pick(['/', 'http://h/', '#', 'a', '?q=']) + ''.join(t.pick(string.ascii_letters + string.digits + '/-._~?=%+@:,$') for _ in range(t.below(30)))
            if t.bool(1, 6):
                u += '(a(b)c)'
            src = u
            if t.bool(1, 4):
                c = t.pick(')(*_[]\\`<>')
                u += c
                src += '\\' + c
        a = [[Sym(key), u.encode()]]
        ti = None
        if src and t.bool(1, 3):
            body, ti = self.words(False)
            if t.bool(1, 3):
                body += t.pick(' ;,.!')
                ti += body[-1:].encode()
            o, c = t.pick(['""', "''", '()'])
            a.append([Sym('title'), ti])
            src += ' ' + o + body + c
            self.kinds.add('title')
        if src and t.bool(1, 4):
            # a reference, defined at the end of the document
            name = 'r%d%s' % (len(self.refs), self.word().encode('ascii', 'ignore').decode())
            self.refs.append('[%s]: %s' % (t.pick([name, name.upper()]), src))
            self.kinds.add('reference')
            return '[' + name + ']', a
        return '(' + src + ')', a

    mark = '*'

    # ---- blocks: -> (lines, expected elements) ----
    def para(self, d=2):
        s, e = self.inline(d)
        return s.split('\n'), e

    def blocks(self, d, tight=False):
        """-> (lines, [expected])"""
        t = self.t
        n = t.between(1, 4) if not tight else 1
        lines, out, last = [], [], None
        for _ in range(n):
            k, ls, e = self.block(d, last)
            if lines:
                lines.append('')
                if t.bool(1, 5):
                    lines.append('')
            lines += ls
            out += e
            last = k
        return lines, out

    def block(self, d, last=None, only=None):
        t = self.t
        lists = 0 if last in ('ul', 'ol') or d <= 0 else 3
        k = only or t.weighted([(5, 'p'), (3, 'h'), (3 if last != 'indented' else 0, 'code'), (1, 'hr'), (lists, 'ul'), (lists, 'ol'), (3 if d > 0 and last != 'quote' else 0, 'quote'),
                                (1, 'html')])
        self.kinds.add(k)
        self.n += 1
        if k == 'p':
            ls, e = self.para(3)
            return k, ls, [el('p', [], e)]
        if k == 'h':
            lv = t.between(1, 6)
            if lv <= 2 and t.bool():
                ls, e = self.para()
                return k, ls + ['=-'[lv - 1] * t.between(1, 9)], [el('h%d' % lv, [], e)]
            s, e = self.inline(2, multi=False)
            return k, ['#' * lv + ' ' * t.between(1, 3) + s + t.pick(['', '', ' #', ' ###', '  '])], [el('h%d' % lv, [], e)]
        if k == 'hr':
            return k, [t.pick(['___', '_ _ _', '*****', '---', '- - -', '__________'])], [el('hr', [], [])]
        if k == 'html':
            return k, [t.pick(['<!-- a *b* -->', '<div>', '<div a="*b*">', '</p>'])], []
        if k == 'code':
            body = []
            for _ in range(t.below(5)):
                body.append(''.join(t.pick(string.ascii_letters + '    ' + PUNCT) for _ in range(t.below(20))) if t.bool(3, 4) else t.pick(['', '```', '# x', '- a', '> q', '    x', '1. ']))
            if (last not in ('ul', 'ol', 'item0')) and t.bool(1, 3):
                while body and not body[-1].strip():
                    body.pop()
                while body and not body[0].strip():
                    body.pop(0)
                body = [b if b.strip() else '' for b in body]
                if body:
                    self.kinds.add('indented')
                    return 'indented', ['    ' + b if b else '' for b in body], [el('pre', [], [el('code', [], [('\n'.join(body) + '\n').encode()])])]
            c = t.pick('`~')
            n = 3
            while any(b.lstrip(' ').startswith(c * n) for b in body):
                n += 1
            n += t.below(2)
            lang, a = '', []
            if t.bool():
                lang = t.pick(['c', 'cora', 'c++', 'text/x-y', 'a.b'])
                src = lang
                if t.bool(1, 3):
                    e = t.pick('*_[#!\\')
                    lang, src = lang + e, src + '\\' + e
                a = [[Sym('class'), b'language-' + lang.encode()]]
                lang = t.pick(['', ' ', '  ']) + src + t.pick(['', ' ', ' more words'])
                self.kinds.add('language')
            return k, [c * n + lang] + body + [c * t.between(n, n + 2)], \
                [el('pre', [], [el('code', a, [''.join(b + '\n' for b in body).encode()])])]
        if k == 'quote':
            ls, e = self.blocks(d - 1)
            m = t.pick(['> ', '> ', '>'])
            ls = [(m + x if x else t.pick(['>', '> '])) if m == '> ' or x[:1] not in ('\t', ' ') else '> ' + x for x in ls]
            if m == '>' and any(x.startswith('> ') for x in ls):
                ls = [x if x.startswith('> ') else '> ' + x[1:] for x in ls]
            return k, ls, [el('blockquote', [], e)]
        # lists
        start = t.pick([1, 1, 0, 2, 7, 10, 123456789])
        mk = t.pick('-+*') if last != 'item0' else '+'      # (not a rule: * * *)
        dl = t.pick('.)')
        tight = t.bool()
        self.kinds.add('tight' if tight else 'loose')
        n = t.between(1 if tight else 2, 4)
        lines, items = [], []
        for i in range(n):
            mark = mk if k == 'ul' else '%d%s' % (min(start + i, 999999999), dl)
            task = t.bool(1, 4)
            if tight:
                # text, then at most one block that needs no blank line before it
                ls, e = self.para()
                if d > 0 and t.bool(1, 3):
                    self.n += 1
                    sub, se = self.after(d - 1)
                    ls, e = ls + sub, e + se
                elif not task and t.bool(1, 12):
                    ls, e = [], []
                    self.kinds.add('empty item')
            else:
                first = 'p' if task else t.pick(['p', 'p', 'h', 'code', 'quote', 'ul' if d > 1 else 'p'])
                if first == 'quote' and d <= 1:
                    first = 'p'
                kk, ls, e = self.block(d - 1, 'item0', first)
                if t.bool(1, 2):
                    for _ in range(t.between(1, 2)):
                        kk, l2, e2 = self.block(d - 1, kk)
                        ls = ls + [''] + l2
                        e = e + e2
                    if kk in ('indented', 'html'):
                        # (a blank line after these does not make an enclosing list loose)
                        kk, l2, e2 = self.block(0, kk, 'p')
                        ls = ls + [''] + l2
                        e = e + e2
            if task:
                self.kinds.add('task')
                m = t.pick(' xX')
                ls = ['[%s] ' % m + ls[0]] + ls[1:]
                inp = [[Sym('type'), b'checkbox'], [Sym('class'), b'task-list-item-checkbox'], Sym('disabled')] + ([Sym('checked')] if m != ' ' else [])
                items.append(el('li', [[Sym('class'), b'task-list-item']], [el('input', inp, [])] + e))
            else:
                items.append(el('li', [], e))
            w = len(mark) + (t.between(1, 3) if t.bool(1, 3) else 1)
            if ls and ls[0].startswith(' '):
                w = len(mark) + 1
            if i and not tight:
                lines.append('')
            if not ls:
                lines.append(mark)
            else:
                lines.append(mark + ' ' * (w - len(mark)) + ls[0])
                lines += [' ' * w + x if x else '' for x in ls[1:]]
        a = [[Sym('start'), start]] if k == 'ol' and start != 1 else []
        return k, lines, [el(k, a, items)]

    def after(self, d):
        """A block that may follow text directly."""
        t = self.t
        k = t.pick(['code', 'h', 'quote', 'ul', 'fence'])
        if k in ('code', 'fence'):
            _, ls, e = self.block(0, 'item0', 'code')
            return ls, e
        if k == 'h':
            lv = t.between(1, 6)
            s, e = self.inline(1, multi=False)
            self.kinds.add('h')
            return ['#' * lv + ' ' + s], [el('h%d' % lv, [], e)]
        if k == 'quote':
            s, e = self.para(1)
            return ['> ' + x for x in s], [el('blockquote', [], [el('p', [], e)])]
        items, lines = [], []
        mk = t.pick('-+*')
        for _ in range(t.between(1, 3)):
            s, e = self.para(1)
            lines += [mk + ' ' + s[0]] + ['  ' + x for x in s[1:]]
            items.append(el('li', [], e))
        self.kinds.add('ul')
        return lines, [el('ul', [], items)]


class C(LibCheck):
    id = 'C34'
    technique = ('random document trees written as Markdown, the converted tree against the tree it was written from; random Markdown-like '
                 'bytes under AddressSanitizer')
    note = ('Documents of paragraphs, both kinds of heading, fenced and indented code, rules, quotations, tight and loose lists with start '
            'numbers and tasks, nested to depth 4 (quotations and emphasis to 200), with emphasis, deletions, code spans, links and images by target or by '
            'reference, titles, escapes and line breaks, to 200 KB; the text is written so that CommonMark leaves no doubt. Character entities, raw HTML '
            'and tables are outside of the tree (the library passes entities on as written and drops HTML). For random bytes only a '
            'well-formed tree of known elements is required.')
    rule = ('A case is a text. Non-trivial: a written document of at least six blocks and inline elements, of at least four kinds, or random bytes whose tree has at '
            'least three elements.')
    kind = 'asan'
    extra = True
    imports = ('md4c/include',)
    pre = PRE
    fast = True
    quick_n = 12000
    thorough_n = 500000
    quick_time = 40
    batch = 60

    def gen(self, t):
        if t.bool(1, 3):
            b = ''.join(t.pick(TOK) for _ in range(t.size(80 if t.bool(9, 10) else 2000))).encode('latin-1')
            return dict(doc=b.hex(), tree=None, labels=['random'], nt=len(b) >= 8)
        g = Gen(t)
        d = t.between(1, 4)
        lines, ex = g.blocks(d)
        if t.bool(1, 20):
            g.kinds.add('deep')
            n = t.between(5, 200)
            if t.bool():
                lines = [('> ' * n + x) if x else '>' * n for x in lines]
                for _ in range(n):
                    ex = [el('blockquote', [], ex)]
            else:
                s, e = 'core', [b'core']
                for i in range(n):
                    m = '*_'[i % 2] * t.between(1, 2)
                    s, e = m + 'a ' + s + ' b' + m, [el('em' if len(m) == 1 else 'strong', [], [b'a '] + e + [b' b'])]
                lines, ex = lines + ['', s], ex + [el('p', [], e)]
        if t.bool(1, 40):
            g.kinds.add('long')
            w = g.word()
            n = t.pick([1000, 6000, 11000, 33000, 50000]) // len(w)
            s = (w + '\n') * n + 'end'
            lines, ex = lines + [''] + s.split('\n'), ex + [el('p', [], [s.encode()])]
        eol = t.pick(['\n', '\n', '\r\n'])
        lines += [''] + g.refs
        doc = eol.join(lines) + t.pick(['', eol])
        tree = text(merge(ex)) if ex else '()'
        return dict(doc=doc.encode().hex(), tree=tree, labels=sorted(g.kinds), nt=g.n >= 6 and len(g.kinds) >= 4)

    @staticmethod
    def wellformed(x):
        st = [(x, True)]
        while st:
            v, top = st.pop()
            if isinstance(v, bytes):
                continue
            if not isinstance(v, list):
                return 'not a tree: %s' % text(v)[:200]
            if not top:
                if not v or not isinstance(v[0], Sym) or str(v[0]) not in TAGS:
                    return 'not an element: %s' % text(v)[:200]
                v = v[1:]
                if v and isinstance(v[0], list) and v[0] and v[0][0] == Sym('@') and isinstance(v[0][0], Sym):
                    for a in v[0][1:]:
                        if not (isinstance(a, Sym) or isinstance(a, list) and len(a) == 2 and isinstance(a[0], Sym) and isinstance(a[1], (bytes, int))):
                            return 'not an attribute: %s' % text(a)[:200]
                    v = v[1:]
            st += [(y, False) for y in v]
        return None

    def judge(self, case, res):
        st, got = res
        if st == 'bad':
            return got
        if st.startswith('timeout'):
            return 'timeout: no result'
        if st != 'exit:0':
            return 'crash: %s after %r' % (st, got[-300:])
        head, _, tail = got.rpartition('=> ')
        if tail != 'ok\n':
            return 'wrong: ends with %r' % got[-200:]
        x = merge(parse(head))
        if case['tree'] is None:
            m = self.wellformed(x)
            return 'malformed: ' + m if m else None
        w, y = case['tree'], text(x)
        if w != y:
            i = 0
            while i < min(len(w), len(y)) and w[i] == y[i]:
                i += 1
            i = max(0, i - 60)
            return 'wrong: expected …%s, got …%s' % (w[i:i + 200], y[i:i + 200])
        return None

    def source(self, case, idx):
        b = bytes.fromhex(case['doc'])
        p = '%s/m%s' % (self.tree.base, hashlib.sha1(b).hexdigest()[:20])
        if not os.path.exists(p):
            with open(p + '.%d' % os.getpid(), 'wb') as f:
                f.write(b)
            os.rename(p + '.%d' % os.getpid(), p)
        return '(vt#case %d (lambda () (md-case "%s")))\n' % (idx, p)

    def interpreted(self, case):
        return False

    def nontrivial(self, c):
        return c['nt']

    def labels(self, c):
        return c['labels']

    def show(self, c):
        return bytes.fromhex(c['doc']).decode('latin-1') + '\n;; expect\n' + str(c['tree'])

    def key(self, c):
        return c['doc']
