"""the comparison as the library reports it"""
from common import enc, fail
import gen


class Side:
    def __init__(self, f, doc):
        n = int(f.pop(0))
        self.kind, self.parent, self.op, self.eq = [], [], [], []
        for _ in range(n):
            k, p, o, e = f.pop(0).decode().split()
            f.pop(0)
            self.kind.append(k)
            self.parent.append(int(p))
            self.op.append(o)
            self.eq.append(int(e))
        self.items = gen.items(doc)
        if self.kind != [i[0] for i in self.items]:
            fail("the tree has not the items of the document", document=gen.compact(doc), kinds=self.kind)

    def __len__(self):
        return len(self.kind)

    def content(self, i):
        return self.items[i][2], self.items[i][3]


class Diff:
    def __init__(self, ctx, a, b, sort=True, text=None):
        self.text = text or (gen.compact(a), gen.compact(b))
        f = ctx.lib.ask("diff", enc(self.text[0]), enc(self.text[1]), int(sort))
        if f[0] != b"ok":
            fail("comparison ends with %s" % f[0].decode(), a=self.text[0], b=self.text[1])
        a, b = gen.ordered(a, not sort), gen.ordered(b, not sort)
        f = f[1:]
        self.dist, self.back, self.equal = int(f.pop(0)), int(f.pop(0)), f.pop(0) == b"1"
        self.a, self.b = Side(f, a), Side(f, b)

    def fail(self, msg, **kw):
        fail(msg, a=self.text[0], b=self.text[1], **kw)

    def same(self, i, j):
        (ka, va), (kb, vb) = self.a.content(i), self.b.content(j)
        return self.a.kind[i] == self.b.kind[j] and ka == kb and gen.same(va, vb)

    def name(self, side, i):
        s = (self.a, self.b)[side]
        k, n = s.content(i)
        return "%s item %d (%s%s)" % ("left" if side == 0 else "right", i, "" if k is None else repr(k) + ": ", gen.compact(n)[:60])
