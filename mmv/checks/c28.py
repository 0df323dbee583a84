"""Ordered trees, circular lists, skip lists and queues against dicts and lists."""
import random

from hypothesis import strategies as st
from mmcore.ds.cdll.cdll import CDLL
from mmcore.ds.cdll.node import Node
from mmcore.ds.tree.avl import AVL
from mmcore.numeric.algorithms.sweep_line.priority_queue import PriorityQueue
from mmcore.numeric.algorithms.sweep_line.sortseq import SortSeq

from ..core import facet, require

FACETS = []
RULE = "Histories of operations with few keys, so that keys repeat, are replaced, deleted and come back, and histories long enough to rotate; trivial below three operations."
ASSUMPTIONS = ["keys are numbers, comparable with each other; removing or looking up what is absent leaves the structure as it was (an item of an AVL tree that is not there raises)",
               "skip lists draw their heights from Python's global random state, which the case seeds"]

KEYS = st.one_of(st.integers(0, 9), st.integers(0, 40), st.integers(-20, 20).map(lambda i: i / 4))

@st.composite
def maps(draw, more=()):
    op = st.tuples(st.sampled_from(["set", "set", "set", "del", "del", "get"] + list(more)), KEYS)
    ops = draw(st.lists(op, max_size=60))
    if draw(st.booleans()):
        # a run in one direction, then deletions: rotations of every kind
        n = draw(st.integers(4, 40))
        run = [["set", i] for i in range(n)]
        order = draw(st.integers(0, 2))
        run = run[::-1] if order == 1 else draw(st.permutations(run)) if order == 2 else run
        ops = list(run) + [["del", k] for k in draw(st.lists(st.integers(0, n), max_size=n))] + list(ops)
    return {"ops": [list(o) for o in ops], "seed": draw(st.integers(0, 10 ** 6))}

def avl_invariants(t):
    if t.node is None:
        require(t.height == -1 and t.balance == 0, "an empty subtree has height %s and balance %s", t.height, t.balance)
        return -1
    l, r = avl_invariants(t.node.left), avl_invariants(t.node.right)
    h = 1 + max(l, r)
    require(t.height == h, "the subtree of %s has height %d and says %d", t.node.key, h, t.height)
    require(t.balance == l - r and abs(l - r) <= 1, "the subtree of %s has branches of heights %d and %d, and balance %s", t.node.key, l, r, t.balance)
    return h

@facet(FACETS, lambda: maps(["append"]), 500, 8000)
def avl(case, ctx):
    """after any history an AVL tree holds exactly the keys of a dict with the same history, with their data and in order, and is balanced"""
    t, model, data = AVL(), {}, 0
    if len(case["ops"]) < 3:
        ctx.trivial()
    ctx.label("keys%d" % min(len({k for _, k in case["ops"]}) // 10, 4))
    for op, k in case["ops"]:
        data += 1
        if op == "set":
            t[k] = data
            model[k] = data
        elif op == "del":
            del t[k]
            model.pop(k, None)
        elif op == "append":
            last = max(model) + 1 if model else 0
            t.append(data)
            model[last] = data
        else:
            n = t.search(k)
            require((n is not None) == (k in model), "search(%s) gives %s in a tree of %s", k, n, sorted(model))
            if n is not None:
                require(t[k] == model[k], "[%s] gives %s, set to %s", k, t[k], model[k])
        avl_invariants(t)
        got = [(n.key, n.data) for n in t.inorder_traverse()]
        require(got == sorted(model.items()), "after %s(%s) the tree holds %s, and should hold %s", op, k, got, sorted(model.items()))

class Hooked(CDLL):
    """counts what enters and leaves"""
    def __init__(self, *a):
        self.seen = []
        super().__init__(*a)

    def insert_hook(self, node):
        self.seen.append(node.data)

    def remove_hook(self, node):
        self.seen.remove(node.data)

OPS = ["append", "node", "insert", "insert", "remove", "at", "del", "set", "replace", "get", "index"]

@st.composite
def lists(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 6), st.floats(0, 0.999)), max_size=30))
    return {"start": draw(st.lists(st.integers(0, 6), max_size=5)), "ops": [list(o) for o in ops]}

@facet(FACETS, lists, 700, 12000)
def circular(case, ctx):
    """after any history a circular list holds exactly the items of a list with the same history, in order in both directions and closed, and its hooks saw what came and went"""
    c, model = Hooked(list(case["start"])), list(case["start"])
    if len(case["ops"]) < 3:
        ctx.trivial()
    replaced = False
    def check(what):
        n = len(model)
        require(len(c) == n and c.size() == n, "%s: size %d, and %d items", what, len(c), n)
        fw = []
        if c.head is not None:
            q = c.head
            for _ in range(n + 1):
                fw.append(q.data)
                require(q.next.previous is q and q.previous.next is q, "%s: the neighbours of %s do not lead back to it", what, q.data)
                q = q.next
                if q is c.head:
                    break
        require(fw == model, "%s: the links run through %s, and the list should be %s", what, fw, model)
        require(list(c) == model, "%s: iterating gives %s, and the list should be %s", what, list(c), model)
        require([q.data for q in c.iter_nodes()] == model, "%s: the nodes hold %s", what, [q.data for q in c.iter_nodes()])
        require(replaced or sorted(c.seen) == sorted(model), "%s: the hooks saw %s stay in a list of %s", what, sorted(c.seen), model)
    check("filled")
    for op, x, f in case["ops"]:
        n = len(model)
        i = int(f * n)
        if op == "append":
            c.append(x); model.append(x)
        elif op == "node":
            c.append_node(Node(x)); model.append(x)
        elif op == "insert":
            i = int(f * (n + 1))
            c.insert(x, i); model.insert(i, x)
        elif op == "remove":
            c.remove(x)
            if x in model:
                model.remove(x)
        elif op == "index":
            require(c.index(x) == (model.index(x) if x in model else None), "index(%s) of %s gives %s", x, model, c.index(x))
            require((x in c) == (x in model), "%s in %s gives %s", x, model, x in c)
        elif op == "get":
            for k in (i, n, -1 - i, -1 - n):
                try:
                    g = c[k]
                except ValueError:
                    g = None
                want = model[k] if -n <= k < n else None
                require(g == want, "[%d] of %s gives %s", k, model, g)
        elif n:
            if op == "at":
                c.remove_by_index(i); del model[i]
            elif op == "del":
                del c[i]; del model[i]
            elif op == "set":
                replaced = True
                c[i] = x; model[i] = x
                c.seen = list(model)
                replaced = False
            else:
                c.replace_node(i, Node(x)); model[i] = x
                c.seen = list(model)
        check(op)

@facet(FACETS, maps, 300, 5000)
def skiplist(case, ctx):
    """after any history a skip list holds exactly the keys of a dict with the same history, with their data, in order in both directions on every level; locating gives the next key"""
    random.seed(case["seed"])
    s, model, data = SortSeq(), {}, 0
    if len(case["ops"]) < 3:
        ctx.trivial()
    for op, k in case["ops"]:
        data += 1
        if op == "set":
            s[k] = data
            model[k] = data
        elif op == "del":
            if data % 2:
                del s[k]
            else:
                node = s.lookup(k)
                if node is not None:
                    s.delItem(node)
            model.pop(k, None)
        else:
            require(s[k] == model.get(k), "[%s] gives %s, set to %s", k, s[k], model.get(k))
            node = s.locate(k)
            above = sorted(m for m in model if m > k)
            want = k if k in model else above[0] if above else None
            require(node is s.tail if want is None else node.key == want, "locate(%s) gives %s in %s, and should give %s", k, node.key, sorted(model), want)
        keys = sorted(model)
        require(list(s) == keys and len(s) == len(keys), "after %s(%s) the list holds %s of size %d, and should hold %s", op, k, list(s), len(s), keys)
        require(list(s.iteritems()) == [(m, model[m]) for m in keys], "after %s(%s) the items are %s, and should be %s", op, k, list(s.iteritems()), sorted(model.items()))
        back, node = [], s.tail.prev[0]
        for _ in range(len(keys) + 1):
            if node is s.head:
                break
            back.append(node.key)
            node = s.pred(node) or s.head
        require(back == keys[::-1], "after %s(%s) the list runs back through %s, and should through %s", op, k, back, keys[::-1])
        for level in range(len(s.head.succ)):
            on = [q.key for q in s._level(None, level)]
            require(on == sorted(on) and set(on) <= set(keys), "level %d holds %s of %s", level, on, keys)
    if s.min() is not None:
        require(s.min().key == min(model), "the smallest key is %s, of %s", s.min().key, sorted(model))

@st.composite
def sequences(draw):
    n = draw(st.integers(2, 14))
    cut = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
    return {"n": n, "cuts": [sorted(c) for c in draw(st.lists(cut, min_size=1, max_size=6))], "seed": draw(st.integers(0, 10 ** 6))}

@facet(FACETS, sequences, 300, 5000)
def reversal(case, ctx):
    """reversing a run of a sorted sequence reverses exactly that run, read in both directions"""
    random.seed(case["seed"])
    s = SortSeq()
    nodes = [s.insert(i, None) for i in range(case["n"])]
    keys = list(range(case["n"]))
    for a, b in case["cuts"]:
        s.reverseItems(nodes[keys[a]], nodes[keys[b]])
        keys[a:b + 1] = keys[a:b + 1][::-1]
        require(list(s) == keys and len(s) == len(keys), "reversing %d..%d gives %s, and should give %s", a, b, list(s), keys)
        for i, k in enumerate(keys):
            p, q = s.pred(nodes[k]), s.succ(nodes[k])
            require((p.key if p else None) == (keys[i - 1] if i else None), "before %s comes %s in %s", k, p and p.key, keys)
            require((q.key if q else None) == (keys[i + 1] if i + 1 < len(keys) else None), "after %s comes %s in %s", k, q and q.key, keys)

@st.composite
def queues(draw):
    return {"ops": draw(st.lists(st.one_of(st.integers(-8, 8), st.none()), max_size=40))}

@facet(FACETS, queues, 400, 5000)
def queue(case, ctx):
    """a priority queue hands out what was put in, smallest first, after any interleaving of insertions and removals"""
    q, model = PriorityQueue(), []
    if len(case["ops"]) < 3:
        ctx.trivial()
    for i, k in enumerate(case["ops"]):
        if k is not None:
            q.insert(k, (k, i))
            model.append((k, i))
        elif model:
            m = q.min()
            require(q.prio(m) == min(model)[0], "the smallest is %s, of %s", q.prio(m), model)
            require(q.inf(m) in model and q.inf(m)[0] == q.prio(m), "%s is not what came with %s", q.inf(m), q.prio(m))
            d = q.delMin()
            require(d is m, "what is removed is not the smallest")
            model.remove(q.inf(d))
        require(q.size() == len(model) and q.empty() == (not model), "size %d, and %d items", q.size(), len(model))
    require(model or q.min() is None, "an empty queue has a smallest item")
