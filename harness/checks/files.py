"""Files: histories of requests from Files.tla, replayed in scratch directories."""
import base64, hashlib, random, re, shutil, tempfile, zipfile
import xml.etree.ElementTree as ET
from html import escape
from html.parser import HTMLParser
from core import *
import tlc
from checks import session

TEXTUAL = {'txt': {'text', 'words', 'blank'}, 'html': {'text', 'bold', 'entity', 'attribute', 'ruby', 'title', 'pre'},
           'docx': {'run', 'spaced', 'deep', 'header', 'note'}}
FOREIGN = 'देवनागरी'                      # text in places that are not text of the document
W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'


class Doc:
    """Builds documents: conv is applied to each text, item by item."""
    def __init__(self, kind, items, words, conv=lambda t: t):
        self.kind, self.items, self.conv, self.words, self.n = kind, items, conv, words, 0

    def w(self):
        self.n += 1
        return self.words[(self.n - 1) % len(self.words)]

    def t(self):
        return self.conv(self.w())

    def build(self):
        return getattr(self, self.kind)()

    def txt(self):
        lines, cur = [], ''
        for i in self.items:
            if i == 'lf' or i == 'crlf':
                lines += [(cur, '\n' if i == 'lf' else '\r\n')]; cur = ''
            else:
                cur += {'text': lambda: self.w(), 'words': lambda: self.w() + ' ' + self.w() + ', ', 'blank': lambda: ' \t '}[i]()
        lines.append((cur, ''))
        return ''.join((self.conv(a) if a else a) + b for a, b in lines)

    def html(self):
        e = lambda: escape(self.t(), quote=False)
        raw = lambda: self.w()
        mk = {'text': lambda: '<p>%s</p>' % e(),
              'bold': lambda: '<p>%s<b>%s</b>%s<i><u>%s</u></i> %s</p>' % (e(), e(), e(), e(), e()),
              'entity': lambda: '<p>%s &amp; %s &lt;%s&gt;</p>' % (0, 0, 0) if 0 else '<p>%s</p>' % escape(self.conv(raw() + ' & <' + raw() + '>'), quote=False),
              'attribute': lambda: '<p class="%s" title="%s">%s</p>' % (FOREIGN, FOREIGN, e()),
              'ruby': lambda: '<ruby>%s<rt>%s</rt></ruby>' % (e(), e()),
              'title': lambda: '<h1>%s</h1>' % e(),
              'pre': lambda: '<pre>%s</pre>' % escape(self.conv(raw() + '\n  ' + raw()), quote=False),
              'comment': lambda: '<!-- %s -->' % FOREIGN, 'script': lambda: '<script>var x = "%s";</script>' % FOREIGN,
              'style': lambda: '<style>p:after { content: "%s" }</style>' % FOREIGN, 'break': lambda: '<br/>',
              'picture': lambda: '<img alt="%s" src="x.png"/>' % FOREIGN}
        return ('<!DOCTYPE html><html lang="sa"><head><meta charset="utf-8"/><title>%s</title></head><body>' % e()
                + ''.join(mk[i]() for i in self.items) + '</body></html>')

    def docx(self):
        body, head, note, more = '', '', '', {}
        p = lambda r: '<w:p><w:pPr><w:jc w:val="center"/></w:pPr><w:r><w:rPr><w:b/></w:rPr>%s</w:r></w:p>' % r
        t = lambda: '<w:t>%s</w:t>' % escape(self.t(), quote=False)
        for k, i in enumerate(self.items):
            if i == 'run': body += p(t())
            elif i == 'spaced': body += p('<w:t xml:space="preserve">%s</w:t>' % escape(self.conv(' ' + self.w() + ' & ' + self.w() + ' '), quote=False))
            elif i == 'deep': body += '<w:tbl><w:tr><w:tc>%s</w:tc></w:tr></w:tbl>' % p(t() + t())
            elif i == 'header': head += p(t())
            elif i == 'note': note += '<w:footnote w:id="%d">%s</w:footnote>' % (k, p(t()))
            elif i == 'empty': body += p('<w:t></w:t>')
            elif i == 'tab': body += p('<w:tab/>')
            elif i == 'instruction': body += p('<w:instrText>%s</w:instrText>' % FOREIGN)
            elif i == 'picture': more['word/media/image%d.png' % k] = b'\x89PNG\r\n\x1a\n' + bytes(range(256))
            elif i == 'settings': more['word/theme/theme%d.xml' % k] = ('<?xml version="1.0"?><a name="%s"/>' % FOREIGN).encode()
        x = lambda tag, s: ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<w:%s xmlns:w="%s">%s</w:%s>' % (tag, W, s, tag)).encode()
        parts = {'[Content_Types].xml': b'<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>',
                 '_rels/.rels': b'<?xml version="1.0"?><Relationships/>', 'docProps/core.xml': ('<?xml version="1.0"?><title>%s</title>' % FOREIGN).encode(),
                 'word/document.xml': x('document', '<w:body>%s</w:body>' % body)}
        if head: parts['word/header1.xml'] = x('hdr', head)
        if note: parts['word/footnotes.xml'] = x('footnotes', note)
        parts.update(more)
        return parts


class Events(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev = []

    def put(self, *e):
        if e[0] == 'text' and self.ev and self.ev[-1][0] == 'text':
            self.ev[-1] = ('text', self.ev[-1][1] + e[1])
        else:
            self.ev.append(e)
    def handle_starttag(self, tag, attrs): self.put('start', tag, tuple(sorted(attrs)))
    def handle_startendtag(self, tag, attrs): self.put('start', tag, tuple(sorted(attrs)))
    def handle_endtag(self, tag):
        if tag not in ('br', 'img', 'meta'): self.put('end', tag)
    def handle_data(self, d): self.put('text', d)
    def handle_comment(self, d): self.put('comment', d)
    def handle_decl(self, d): self.put('decl', d.lower())


def content(kind, data):
    """A document, reduced to what matters."""
    if kind == 'txt':
        return data
    if kind == 'html':
        p = Events(); p.feed(data); p.close()
        ev = p.ev                                       # white space outside of the root element is nothing
        return [e for i, e in enumerate(ev) if not (e[0] == 'text' and not e[1].strip() and (i == 0 or i == len(ev) - 1 or ev[i - 1][0] == 'decl'))]
    out = {}
    for k, v in data.items():
        out[k] = ET.canonicalize(v.decode('utf8')) if k.startswith('word/') and k.endswith('.xml') else v.hex()
    return out


def write(kind, path, doc):
    if kind == 'docx':
        with zipfile.ZipFile(path, 'w') as z:
            for k, v in doc.items():
                z.writestr(k, v)
    else:
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(doc)


def read(kind, path):
    if kind == 'docx':
        with zipfile.ZipFile(path) as z:
            return {n: z.read(n) for n in z.namelist()}
    with open(path, encoding='utf8', newline='') as f:
        return f.read()


def snapshot(d):
    return {n: hashlib.sha256(open(os.path.join(d, n), 'rb').read()).hexdigest() for n in sorted(os.listdir(d))}


def ask(F, a, path):
    """One request: None, or the error."""
    return call(F.process, a['src'], a['tgt'], path, a['nativize'], list(a['pre']), list(a['post']), limit=120)


STEMS = {'txt': ['text', 'page.html', 'a.docx', 'two.words'], 'html': ['page', 'notes.txt', 'a.docx'], 'docx': ['letter', 'notes.txt', 'x.html']}
EXTS = {'txt': ['.txt'], 'html': ['.html', '.htm'], 'docx': ['.docx']}


def replay(job):
    """One history.  Returns (problems, number of requests)."""
    items, hist, kind, asks, words, seed = job
    from aksharamukha import transliterate_file as F
    rnd = random.Random(seed)
    d = tempfile.mkdtemp(prefix='files')
    bad, n = [], 0
    try:
        conv = lambda a, t: process(a['src'], a['tgt'], t, nativize=a['nativize'], pre_options=list(a['pre']), post_options=list(a['post']))
        sub = os.path.join(d, rnd.choice(['box', 'box.txt', 'in.docx'])); os.mkdir(sub)
        at = lambda f: os.path.join(sub, f)
        ext = rnd.choice(EXTS[kind])
        real = {('original',): rnd.choice(STEMS[kind]) + ext, ('beside',): 'other' + ext, ('strange',): rnd.choice(['scan.pdf', 'old.txt.bak', 'x.html.gz', 'notes']), ('missing',): 'nothing' + ext}
        docs = {('original',): Doc(kind, items, words).build(), ('beside',): Doc(kind, ['run' if kind == 'docx' else 'text'], words[1:]).build()}
        for f in (('original',), ('beside',)):
            write(kind, at(real[f]), docs[f])
        write('txt', at(real[('strange',)]), words[0])
        gone = {f: [] for f in docs}                    # requests that led to each file
        for f, k in hist:
            f = tuple(f)
            if f not in real:
                continue                                # (its making was already reported)
            n += 1
            a = asks[k - 1] if k else dict(asks[0], **{rnd.choice(['pre', 'post']): ['NoSuchOption']})
            before = snapshot(sub)
            r = ask(F, a, at(real[f]))
            after = snapshot(sub)
            where = dict(items=items, history=hist, file=real[f], request=a)
            new = [x for x in after if x not in before]
            changed = [x for x in before if after.get(x) != before[x]]
            if not k or f in (('strange',), ('missing',)):
                if isinstance(r, tuple) or f in (('strange',), ('missing',)):
                    if new or changed:
                        bad.append(dict(what='a request that was not carried out changed files', new=new, changed=changed, **where))
                for x in new:                           # (nothing to convert in it, so nothing failed)
                    os.remove(at(x))
                continue
            if isinstance(r, tuple):
                bad.append(dict(what='the request failed', got=r, **where)); continue
            g = f + (k,)
            if changed and not (g in real and changed == [real[g]]) or len(new) > 1 or (g in real and new) or (g not in real and not new):
                bad.append(dict(what='not exactly one new file', new=new, changed=changed, **where)); continue
            if g not in real:
                stem, e = os.path.splitext(real[f])
                if not new[0].startswith(stem) or os.path.splitext(new[0])[1] != e:
                    bad.append(dict(what='the new file has another name', new=new, **where))
                real[g], gone[g] = new[0], gone[f] + [k]
            try:
                got = content(kind, read(kind, at(real[g])))
            except Exception as e:
                bad.append(dict(what='the new file cannot be read', got=repr(e), **where)); continue
            def chain(t, ks=gone[g]):
                for k in ks:
                    t = conv(asks[k - 1], t)
                return t
            src_items, ws = (items, words) if g[0] == 'original' else (['run' if kind == 'docx' else 'text'], words[1:])
            want = content(kind, Doc(kind, src_items, ws, chain).build())
            if got != want:
                bad.append(dict(what='the new file holds something else', want=want, got=got, **where))
            if k and len(hist) == 1 and f == ('original',) and kind != 'txt' and rnd.random() < .5:
                # the same document given as data
                if kind == 'html':
                    o = call(F.convert_html, a['src'], a['tgt'], docs[f], a['nativize'], list(a['pre']), list(a['post']), True)
                    o = content(kind, o) if isinstance(o, str) else o
                else:
                    o = call(F.convert_docx, a['src'], a['tgt'], base64.b64encode(open(at(real[f]), 'rb').read()), a['nativize'], list(a['pre']), list(a['post']), True)
                    o = content(kind, {x: zipfile.ZipFile(o).read(x) for x in zipfile.ZipFile(o).namelist()}) if not isinstance(o, tuple) else o
                n += 1
                if o != want:
                    bad.append(dict(what='given as data, the document becomes something else', want=want, got=o, **where))
                if snapshot(sub) != after:
                    bad.append(dict(what='converting data changed files', **where))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, n


PAIRS = [('Devanagari', 'Tamil', ['TamilSubScript', 'RemoveDiacriticsTamil', 'UseLocalNumerals'], ['RemoveSchwaHindi']), ('Devanagari', 'IAST', ['IASTPali'], ['RemoveSchwaHindi', 'RemoveFinalSchwaHindi']),
         ('Devanagari', 'Malayalam', ['MalayalamTraditional', 'MalayalamChillu'], ['RemoveSchwaHindi']), ('Devanagari', 'Bengali', ['BengaliIntervocalicDDA', 'KhandaTa'], ['RemoveSchwaHindi']),
         ('Devanagari', 'Telugu', ['TeluguRemoveNukta', 'UseLocalNumerals'], []), ('Devanagari', 'Itrans', [], ['RemoveSchwaHindi']), ('Devanagari', 'Gurmukhi', ['GurmukhiTippiBindu'], [])]


def files(pid):
    c = Check(pid)
    rnd = random.Random(c.seed)
    tx = session.texts(c)
    words = [w for w in tx['Devanagari'] if w.isalpha() or True]
    words = [w for w in (re.sub(r'[^\u0900-\u0963\u0966-\u096f]', '', x) for x in words) if w]
    jobs = [('Files', {'kind': k, 'items': 3 if c.thorough and k == 'html' else 2, 'least': 0, 'requests': 1, 'asks': 1}) for k in TEXTUAL]
    jobs += [('Files', {'kind': k, 'items': 1, 'least': 1, 'requests': 3 if c.thorough else 2, 'asks': 2}) for k in TEXTUAL]
    pairs = []
    for p in PAIRS:
        post = [o for o in p[2] if o in session.OPT['post']]
        pre = [o for o in p[3] if o in session.OPT['pre']]
        pairs.append((p[0], p[1], post, pre))
    todo = []
    for rows, st in tlc.run_many(jobs):
        c.stats(st)
        rows = rows if c.thorough else rnd.sample(rows, min(len(rows), 450))
        for items, hist, kind in rows:
            asks = []
            chain = rnd.sample(pairs, 2)
            for s, t, post, pre in chain:
                asks.append({'src': s, 'tgt': t, 'nativize': rnd.random() < .5, 'post': rnd.sample(post, min(len(post), rnd.randrange(2))), 'pre': rnd.sample(pre, min(len(pre), rnd.randrange(2)))})
            todo.append((items, hist, kind, asks, rnd.sample(words, 12), rnd.random()))
    for job, (bad, n) in zip(todo, pmap(replay, todo, 8)):
        for b in bad:
            c.violation(**b)
        c.count(n, histories=1)
    c.sample({'items': todo[0][0], 'history': todo[0][1], 'kind': todo[0][2], 'requests': todo[0][3]})
    c.assumptions += ['the text of a document is converted item by item: a web page by text node, a word-processor document by run, a plain text by line',
                      'converted files are named after the original; only the stem and the extension are relied on']
    c.finish()
