"""C25 data structures under random histories, against models"""
from mon import gen

CASES = dict(quick=4500, thorough=100000)
RULE = ('case = one history of 5-300 operations on MaxHeap (model: multiset), on linked lists of LnNode (model: python list) or on a trie of TrNode '
        '(model: dict and the set of prefixes), checked after every operation or every few; keys up to 3000 long, priorities and items with ties; '
        'distinct = distinct histories')
NEED = dict(heap_ops=30000, heap_ties=2000, heap_pops=10000, deletions=15000, list_walks=15000, trie_inserts=10000, trie_lookups=15000, long_keys=100,
            falsy_data=500, empty_pops=100, huge=5)
ASSUMPTIONS = ['items of the heap are comparable with each other', 'list nodes are compared by identity']


def heap_case(ctx):
    from nlcodec.dstruct import MaxHeap
    rng = ctx.rng
    kind = rng.choice(['int', 'str', 'tuple'])

    def item():
        if kind == 'int':
            return rng.randint(0, rng.choice([3, 30, 10 ** 6]))
        if kind == 'str':
            return ''.join(rng.choice('abé😀') for _ in range(rng.randint(0, 3)))
        return (rng.randint(0, 5), rng.randint(0, 5))
    top = rng.choice([1, 3, 100, 2 ** 70])
    neg = rng.random() < 0.3

    def prio():
        v = rng.randint(0, top)
        if rng.random() < 0.05:
            v = v + 0.5 if top < 2 ** 40 else v
        return -v if neg and rng.random() < 0.5 else v
    huge = ctx.i % 401 == 0
    start = {item(): prio() for _ in range(rng.choice([0, 0, 1, 5, 40]) if not huge else rng.choice([3000, 20000]))}
    ctx.count('huge', huge)
    heap = MaxHeap(start)
    model = {}
    for k, v in start.items():
        model[k, v] = model.get((k, v), 0) + 1
    hist = [sorted(start.items())]

    def size():
        return sum(model.values())
    for _ in range(rng.choice([5, 40, 150])):
        r = rng.random()
        if r < 0.5:
            k, v = item(), prio()
            heap.push(k, v)
            model[k, v] = model.get((k, v), 0) + 1
            hist.append((k, v))
        elif not model:
            ctx.raises(heap.pop if r < 0.8 else heap.peek, 'pop or peek of an empty heap gives something', history=hist)
            ctx.count('empty_pops')
        else:
            best = max(v for _, v in model)
            pop = r < 0.9
            got = heap.pop() if pop else heap.peek()
            k, v = got
            ctx.check((k, v) in model, 'heap gives an item it does not hold (or with another priority)', got=got, history=hist)
            ctx.check(v == best, 'heap does not give an item of the highest priority', got=got, best=best, history=hist)
            ctx.count('heap_ties', sum(1 for _, w in model if w == best) > 1)
            if pop:
                model[k, v] -= 1
                if not model[k, v]:
                    del model[k, v]
                hist.append('pop')
                ctx.count('heap_pops')
        ctx.check(len(heap) == size(), 'len of the heap', got=len(heap), want=size(), history=hist)
        ctx.count('heap_ops')
    got, last = [], None
    while len(heap):
        k, v = heap.pop()
        ctx.check(last is None or v <= last, 'heap pops are not in non-increasing priority', got=(k, v), last=last)
        last = v
        got.append((k, v))
    want = [kv for kv, n in model.items() for _ in range(n)]
    ctx.equal(sorted(got), sorted(want), 'heap does not hold exactly the items pushed and not popped', history=hist)
    ctx.sig('heap', hist)


def list_case(ctx):
    from nlcodec.dstruct import LnNode
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 8, 40, rng.randint(0, 300)])
    if ctx.i % 401 == 1:
        n = rng.choice([1500, 4000])
        ctx.count('huge')
    if rng.random() < 0.5:
        vals = [rng.randint(0, 3) for _ in range(n)]
        seq = vals
    else:
        seq = ''.join(rng.choice('ab') for _ in range(n))
        vals = list(seq)
    freq, data = rng.choice([1, 0, 7]), rng.choice([None, 5, 'd'])
    nodes = LnNode.from_seq(seq, freq=freq, data=data)
    ctx.equal([x.val for x in nodes], vals, 'list nodes have other values')
    ctx.check(all(x.freq == freq and x.data is data for x in nodes), 'freq or data of list nodes')
    model = list(nodes)
    gone = []
    pos = {id(x): i for i, x in enumerate(nodes)}

    def walk(k):
        x = model[k]
        for step, it in (('right', range(k + 1, len(model))), ('left', range(k - 1, -1, -1))):
            y = getattr(x, step)
            for j in it:
                ctx.check(y is model[j], f'list: {step} link is wrong', vals=vals, deleted=hist, at=k, want=j)
                y = getattr(y, step)
            ctx.check(y is None, f'list: {step} link goes beyond the end', vals=vals, deleted=hist, at=k)
        ctx.count('list_walks')
    hist = []
    if model:
        walk(0)
        walk(len(model) - 1)
    n_del = rng.randint(0, min(n, 400))
    for _ in range(n_del):
        if not model:
            break
        k = rng.choice([0, len(model) - 1, rng.randrange(len(model)), rng.randrange(len(model))])
        x = model.pop(k)
        unlink = rng.random() < 0.6
        before = x.left, x.right
        x.delete(unlink=unlink) if not unlink or rng.random() < 0.5 else x.delete()
        hist.append((pos[id(x)], unlink))
        ctx.count('deletions')
        if unlink:
            ctx.check(x.left is None and x.right is None and x.is_unlinked, 'deleted node is still linked', vals=vals, deleted=hist)
            gone.append(x)
        else:
            ctx.check((x.left, x.right)[0] is before[0] and x.right is before[1], 'delete(unlink=False) changes links of the node itself')
        if gone and rng.random() < 0.1:
            rng.choice(gone).delete()  # no effect when it is not in a list
        if model:
            walk(min(k, len(model) - 1)) if rng.random() < 0.7 else walk(rng.randrange(len(model)))
    for i, x in enumerate(model):
        ctx.check(x.left is (model[i - 1] if i else None) and x.right is (model[i + 1] if i + 1 < len(model) else None),
                  'links of the list are wrong after deletions', vals=vals, deleted=hist)
        ctx.check(x.val == nodes[pos[id(x)]].val and x.freq == freq, 'payload of list nodes changed')
        ctx.check(x.is_unlinked == (len(model) == 1), 'is_unlinked is wrong')
    ctx.sig('list', vals, hist)


def trie_case(ctx):
    from nlcodec.dstruct import TrNode
    rng = ctx.rng
    alpha = rng.choice(['ab', 'abcde', '▁é😀x', [0, 1, 2], [(0, 1), (1, 0)], [-1, 10 ** 9, 5]])
    root = TrNode(idx=rng.choice(['', 0, -1]))
    prefixes, data = {()}, {}
    maxlen = rng.choice([3, 6, 12, 12, 12, 3000 if rng.random() < 0.3 else 12])
    hist = []

    def key():
        r = rng.random()
        if data and r < 0.3:
            k = list(rng.choice(list(data)))
            if rng.random() < 0.5:
                k = k[:rng.randint(0, len(k))]
            else:
                k += [rng.choice(alpha) for _ in range(rng.randint(0, 3))]
            return tuple(k)
        n = rng.randint(0, maxlen) if maxlen < 100 or rng.random() < 0.9 else maxlen
        return tuple(rng.choice(alpha) for _ in range(n))

    def native(k):
        return ''.join(k) if isinstance(alpha, str) and rng.random() < 0.7 else list(k)
    for step in range(rng.choice([3, 20, 60])):
        r = rng.random()
        k = key()
        if r < 0.6:
            node = root.get_node(native(k)) if rng.random() < 0.5 else root.get_node(idxs=native(k), create_missing=True)
            for i in range(len(k) + 1):
                prefixes.add(k[:i])
            if rng.random() < 0.8:
                node.data = rng.choice([0, '', False, 1, 'x', (2,), [] if rng.random() < 0.1 else 5])
                node.name = str(step)
                data[k] = (node, node.data, node.name)
                ctx.count('falsy_data', not node.data)
            if k:
                ctx.check(node.idx == k[-1], 'trie node has another idx')
            up, spell = node, []
            while up.parent is not None:
                spell.append(up.idx)
                ctx.check(up.parent.kids.get(up.idx) is up, 'trie: parent does not have the node as its kid')
                up = up.parent
            ctx.check(up is root and tuple(reversed(spell)) == k, 'trie: parents do not spell the key', trie_key=short_key(k))
            ctx.count('trie_inserts')
            ctx.count('long_keys', len(k) >= 1000)
            hist.append(short_key(k))
        else:
            if k in prefixes:
                node = root.get_node(native(k), create_missing=False)
                ctx.check(node.has_data == (k in data), 'trie: has_data is wrong', trie_key=short_key(k))
                ctx.check(node.n_kids == len({p[len(k)] for p in prefixes if len(p) == len(k) + 1 and p[:len(k)] == k})
                          if len(prefixes) < 500 else True, 'trie: n_kids is wrong', trie_key=short_key(k))
            else:
                ctx.raises(lambda: root.get_node(native(k), create_missing=False), 'trie finds a key which was not inserted', trie_key=short_key(k))
            ctx.count('trie_lookups')
        if step % 3 == 0 or step < 5:
            ctx.check(root.size == len(prefixes), 'trie: size is not the number of nodes', got=root.size, want=len(prefixes), history=hist)
            ctx.check(root.data_node_count == len(data), 'trie: data_node_count', got=root.data_node_count, want=len(data), history=hist)
    for k, (node, d, name) in data.items():
        x = root.get_node(native(k), create_missing=False)
        ctx.check(x is node and x.data is d and x.name == name, 'trie does not find an inserted key', trie_key=short_key(k), history=hist)
        ctx.count('trie_lookups')
    for _ in range(3):  # sub-trees
        p = rng.choice(sorted(prefixes, key=repr)) if len(prefixes) < 2000 else ()
        x = root.get_node(list(p), create_missing=False)
        ctx.check(x.size == sum(1 for q in prefixes if q[:len(p)] == p), 'trie: size of a sub-tree', trie_key=short_key(p), history=hist)
        ctx.check(x.data_node_count == sum(1 for q in data if q[:len(p)] == p), 'trie: data_node_count of a sub-tree', trie_key=short_key(p), history=hist)
    ctx.check(root.size == len(prefixes), 'trie: lookups change the size')
    ctx.sig('trie', hist)


def short_key(k):
    return k if len(k) < 40 else (len(k), k[:20])


def case(ctx):
    (heap_case, list_case, trie_case)[ctx.i % 3](ctx)
    if ctx.i < 3:
        ctx.sample(dict(kind=('heap', 'list', 'trie')[ctx.i], counts=dict(ctx.counts)))
