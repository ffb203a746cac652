"""Independent reader of the repository format, and the monitor that judges the
repository after every single mutation made by simulated processes."""
import os, json, hashlib
from .fsim import real

HEX = set('0123456789abcdef')


class StoreError(Exception): pass


def rd(path):
    with real.open(path, 'rb') as f: return f.read()


def head_of(base):
    try: return rd(base + '/head').decode('utf8', 'replace')
    except FileNotFoundError: return 'root'


def raw_obj(base, kind, h):
    if len(h) != 64 or not set(h) <= HEX: raise StoreError('bad hash %r' % (h,))
    try: b = rd('%s/%s/%s/%s' % (base, kind, h[:2], h[2:]))
    except OSError as e: raise StoreError('%s object %s unreadable: %s' % (kind, h[:12], e.strerror))
    if hashlib.sha256(b).hexdigest() != h: raise StoreError('%s object %s has wrong contents' % (kind, h[:12]))
    return b


def index_obj(base, h, typ):
    try: o = json.loads(raw_obj(base, 'index', h))
    except ValueError: raise StoreError('index object %s is not JSON' % h[:12])
    if o.get('type') != typ: raise StoreError('index object %s is a %r, not a %s' % (h[:12], o.get('type'), typ))
    return o


class Rev:
    __slots__ = ('id', 'parent', 'tree', 'changes', 'msg', 'by', 'time', 'tree_root', 'objs', 'step', 'at')


def read_rev(base, h, known=None):
    """full check of one revision: every object readable with the right digest.
    known: set of object paths already verified (they are watched afterwards)"""
    c = index_obj(base, h, 'commit')
    r = Rev(); r.id = h; r.parent = c['parent']; r.changes = c['changes']; r.msg = c['commit_message']; r.by = c['commit_by']
    r.time = c['utc_date_time']; r.tree_root = c['tree_root']; r.tree = {}; r.objs = {'index/%s/%s' % (h[:2], h[2:])}
    def walk(th, pre, depth):
        if depth > 200: raise StoreError('tree too deep')
        t = index_obj(base, th, 'tree')
        r.objs.add('index/%s/%s' % (th[:2], th[2:]))
        for n, fi in t['files'].items():
            fh = fi['hash']
            p = 'files/%s/%s' % (fh[:2], fh[2:])
            if known is None or p not in known: raw_obj(base, 'files', fh)
            r.objs.add(p)
            r.tree[pre + '/' + n] = fh
        for n, dh in t['dirs'].items(): walk(dh, pre + '/' + n, depth + 1)
    walk(c['tree_root'], '', 0)
    return r


def read_chain(base, limit=10000):
    """all revisions from head to root, newest first"""
    out = []; h = head_of(base); seen = set()
    while h != 'root':
        if h in seen: raise StoreError('cycle in history')
        seen.add(h)
        r = read_rev(base, h); out.append(r); h = r.parent
        if len(out) > limit: raise StoreError('chain too long')
    return out


def list_objects(base):
    out = set()
    for kind in ('index', 'files'):
        d = base + '/' + kind
        if not real.isdir(d): continue
        for a in real.os_listdir(d):
            sub = d + '/' + a
            try: names = real.os_listdir(sub)
            except NotADirectoryError:
                out.add('%s/%s' % (kind, a)); continue
            for b in names: out.add('%s/%s/%s' % (kind, a, b))
    return out


def sha(b): return hashlib.sha256(b).hexdigest()


class StoreMonitor:
    """Watches one repository.  After every mutation by any simulated process:
    - head names a completed, fully readable revision whose parent is the previous head (P01/P02/P03)
    - no object of any revision is removed or altered (P01 for the current one, P02 for all)"""

    def __init__(self, k, base, name='repo'):
        self.k = k; self.base = base; self.name = name
        self.chain = []            # Rev, oldest first
        self.by_id = {}
        self.objs = set()          # relative object paths every revision needs
        self.on_rev = []           # callbacks(rev, thread)
        self.head = head_of(base)
        self.broken = False
        self.on_unlink = []
        if self.head != 'root':
            for r in reversed(read_chain(base)): self._add(r)
        k.observers.append(self.see)

    def _add(self, r):
        self.chain.append(r); self.by_id[r.id] = r; self.objs |= r.objs

    def see(self, what, path, path2, thr):
        b = self.base
        if not path.startswith(b) and not (path2 and path2.startswith(b)): return
        for p in (path, path2):
            if p is None or not p.startswith(b + '/'): continue
            rel = p[len(b) + 1:]
            if rel == 'head': self.check_head(thr)
            elif rel in self.objs: self.check_obj(rel, what, thr)
            elif what in ('rename', 'rmdir') and any(o.startswith(rel + '/') for o in self.objs):
                for o in sorted(self.objs):
                    if o.startswith(rel + '/'): self.check_obj(o, what, thr)

    def check_obj(self, rel, what, thr):
        kind, a, b2 = rel.split('/')
        try:
            raw_obj(self.base, kind, a + b2)
        except StoreError as e:
            who = thr.proc.name if thr else '?'
            role = thr.proc.tag.get('tool') if thr else None
            d = '%s by %s (%s): %s' % (what, who, self.name, e)
            if role == 'gc': self.k.violate('P15', 'gc-removed-needed', d)
            if role == 'verify': self.k.violate('P16', 'verify-changed', d)
            if self.chain and rel in self.chain[-1].objs: self.k.violate('P01', 'head-object-damaged', d)
            self.k.violate('P02', 'object-damaged', d)
            if what == 'unlink': self.k.violate('P12', 'needed-object-removed', d)
            self.objs.discard(rel)

    def check_head(self, thr):
        h = head_of(self.base)
        if h == self.head: return
        who = thr.proc.name if thr else '?'
        try:
            r = read_rev(self.base, h, self.objs)
        except (StoreError, KeyError, TypeError, AttributeError) as e:
            if getattr(self.k, 'gc_ran', False): self.k.violate('P15', 'needed-object-gone', 'collected, then head became %r by %s (%s): %s' % (h[:16], who, self.name, e))
            self.k.violate('P01', 'head-incomplete', 'head became %r by %s (%s): %s' % (h[:16], who, self.name, e))
            if self.head != 'root': self.k.violate('P02', 'head-lost', 'head became %r, was %s (%s)' % (h[:16], self.head[:12], self.name))
            self.head = h; self.broken = True
            return
        if r.parent != self.head:
            self.k.violate('P02', 'history-rewritten', 'new head %s has parent %s, previous head was %s (%s)' % (h[:12], r.parent[:12], self.head[:12], self.name))
            self.k.violate('P03', 'parent-not-head', 'new head %s has parent %s, previous head was %s (%s)' % (h[:12], r.parent[:12], self.head[:12], self.name))
        r.step = self.k.steps; r.at = self.k.now
        self.head = h
        self._add(r)
        for f in self.on_rev: f(r, thr)

    def final_check(self):
        """everything from head to root still there (costly, once per run)"""
        try: ch = list(reversed(read_chain(self.base)))
        except StoreError as e:
            self.k.violate('P01', 'final-unreadable', '%s: %s' % (self.name, e)); self.k.violate('P02', 'final-unreadable', '%s: %s' % (self.name, e))
            return
        if [r.id for r in ch] != [r.id for r in self.chain]:
            self.k.violate('P02', 'final-chain', '%s: chain is %s, recorded %s' % (self.name, [r.id[:8] for r in ch], [r.id[:8] for r in self.chain]))
