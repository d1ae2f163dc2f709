from hints.C01 import *
from pyvc.core import *


@contract("tokenizer.TestTokenizer.__init__", "tokenizer.TestTokenizer.__next__", "tokenizer.TestTokenizer.peek", "tokenizer.TestTokenizer.has_next")
def lossless(V):
    """iterating over a tokenizer: tokens are consecutive non-empty pieces of the text, up to its end"""
    V.terminates()
    text = V.str("text")
    joined = V.cell("", "joined", StrT)
    prefix_hints(V, text, joined)
    tok = V.cls("tokenizer", "TestTokenizer")(text)
    n = len(text)
    while True:
        r = V.run(next, tok)
        if not r.ok:
            V.ensure("only the end of the text ends the iteration", isinstance(r.value, StopIteration))
            V.ensure("the tokens concatenate to the text", V.eq(joined.v, text))
            break
        V.ensure("a token is not empty", len(r.value) > 0)
        V.ensure("no token beyond the end", len(joined.v) < n)
        splice(V, text, joined, r.value)
        joined.v = joined.v + r.value


@contract("tokenizer.BufferIterator.__init__", "tokenizer.BufferIterator.__next__", "tokenizer.BufferIterator.has_next")
def lookahead(V):
    """the lookahead wrapper over any iterator yields the same items in the same order"""
    items = V.list(StrT, "items")
    at = V.cell(0, "at", IntT)
    n = len(items)

    class It:
        def __iter__(self):
            return self

        def __next__(self):
            if at.v >= n:
                raise StopIteration()
            x = items[at.v]
            at.v = at.v + 1
            return x

    k = V.cell(0, "k", IntT)
    look_hints(V, items, at, k)
    b = V.cls("tokenizer", "BufferIterator")(It())
    while V.more():
        V.ensure("has_next exactly while items remain", V.iff(b.has_next(), k.v < n))
        if k.v < n:
            V.ensure("the head is the next item", V.eq(b.head, items[k.v]))
        r = V.run(next, b)
        if r.ok:
            V.ensure("an item only while items remain", k.v < n)
            V.ensure("the items come in order", V.eq(r.value, items[k.v]))
            k.v = k.v + 1
        else:
            V.ensure("the end only after the last item", V.both(isinstance(r.value, StopIteration), k.v >= n))
            break
