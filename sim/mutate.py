"""Document faults as data: a mutation is a JSON list, so that a run can be replayed and minimised."""
from .infoset import NIL, Node

BAD = ['bad', 'zz9', '-77', '', ' ', '1.5.2', '99999-01-01', '{x}', 'x' * 30]
TAGS = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'item', 'node', 'foreign', 'w', 'box']


def paths(node, pre=()):
    yield pre, node
    for i, k in enumerate(node.kids):
        yield from paths(k, pre + (i,))


def resolve(root, path):
    n = root
    for i in path:
        if i >= len(n.kids):
            return None
        n = n.kids[i]
    return n


def tags_of(root):
    return sorted({n.tag for n in root.walk()})


def draw(rng, root, kinds):
    """Draws one mutation applicable to the document."""
    kind = rng.choice(kinds)
    nodes = list(paths(root))
    path, n = rng.choice(nodes)
    path = list(path)
    if kind == 'text':
        # the text of an element that carries a scalar
        cand = [(p, x) for p, x in nodes if not x.kids] or nodes
        path, n = rng.choice(cand)
        return ['text', list(path), rng.choice(BAD)]
    if kind == 'arrive':
        cand = [(p, x) for p, x in nodes if x.kids]
        if not cand:
            return None
        cand += [(p, x) for p, x in cand if len(x.kids) > 1] * 2
        path, n = rng.choice(cand)
        return arrivals(rng, root, list(path), len(n.kids))
    if kind == 'empty':
        cand = [(p, x) for p, x in nodes if not x.kids]
        path, n = rng.choice(cand)
        return ['text', list(path), '']
    if kind == 'attr':
        cand = [(p, x) for p, x in nodes if x.attrs]
        if not cand:
            return None
        path, n = rng.choice(cand)
        return ['attr', list(path), rng.choice(sorted(n.attrs)), rng.choice(BAD)]
    if kind == 'delattr':
        cand = [(p, x) for p, x in nodes if x.attrs]
        if not cand:
            return None
        path, n = rng.choice(cand)
        return ['delattr', list(path), rng.choice(sorted(n.attrs))]
    if kind in ('drop', 'dup', 'nil'):
        if len(nodes) < 2:
            return None
        path, n = rng.choice(nodes[1:])
        return [kind, list(path)]
    if kind in ('swap', 'move'):
        cand = [(p, x) for p, x in nodes if len(x.kids) > 1]
        if not cand:
            return None
        path, n = rng.choice(cand)
        return [kind, list(path), rng.randrange(len(n.kids)), rng.randrange(len(n.kids))]
    if kind == 'shuffle':
        cand = [(p, x) for p, x in nodes if len(x.kids) > 1]
        if not cand:
            return None
        path, n = rng.choice(cand)
        order = list(range(len(n.kids)))
        rng.shuffle(order)
        return ['shuffle', list(path), order]
    if kind == 'insert':
        return ['insert', path, rng.randint(0, len(n.kids)), foreign(rng, root)]
    if kind == 'rename':
        if len(nodes) < 2:
            return None
        path, n = rng.choice(nodes[1:])
        return ['rename', list(path), rng.choice(TAGS + tags_of(root))]
    if kind == 'addattr':
        return ['addattr', path, rng.choice(['fa', '{urn:foreign}fb', 'a', 'i', 'kind']), rng.choice(['v', '', ' '])]
    if kind == 'addtext':
        return ['addtext', path, rng.choice(['foreign', ' x '])]
    if kind == 'addtail':
        if len(nodes) < 2:
            return None
        path, n = rng.choice(nodes[1:])
        return ['addtail', list(path), rng.choice(['foreign', ' x '])]
    raise ValueError(kind)


def foreign(rng, root):
    tag = rng.choice(TAGS + tags_of(root) + ['{urn:foreign}t'])
    if rng.random() < 0.25:
        # a known name in a namespace it does not belong to
        local = rng.choice(tags_of(root)).rsplit('}', 1)[-1]
        tag = rng.choice(['{urn:foreign}', '{urn:q}', '']) + local
    return [tag, {'fa': 'f'} if rng.random() < 0.3 else {}, rng.choice(['', '', 'foreign', ' ']),
            [['{urn:foreign}sub', {}, rng.choice(['', 'deep']), [], '']] if rng.random() < 0.3 else [], '']


def arrivals(rng, root, path, n):
    """
    The sub-elements of an element are sent one by one, one per second, through a link that delays, loses and duplicates
    messages and that foreign messages share. What arrives, in the order of arrival, becomes the content.
    """
    jitter = rng.choice([0, 0.5, 2, 10])
    loss, dup, alien = rng.choice([0, 0, 0.1, 0.4]), rng.choice([0, 0, 0.1, 0.4]), rng.choice([0, 0, 0.1, 0.4, 0.85])
    events, stats = [], {'lost': 0, 'duplicated': 0, 'foreign': 0, 'reordered': 0}
    for i in range(n):
        if rng.random() < loss:
            stats['lost'] += 1
            continue
        copies = 1
        if rng.random() < dup:
            copies = rng.choice([2, 2, 3])
            stats['duplicated'] += copies - 1
        for _ in range(copies):
            events.append((i + rng.random() * jitter, i))
    while rng.random() < alien and stats['foreign'] < 8:
        stats['foreign'] += 1
        events.append((rng.random() * n, foreign(rng, root)))
    events.sort(key=lambda e: e[0])
    seq = [x for _, x in events if isinstance(x, int)]
    stats['reordered'] = sum(1 for a, b in zip(seq, seq[1:]) if a > b)
    end = max([t for t, _ in events], default=0)
    return ['arrive', path, [x for _, x in events], round(end, 3), {k: v for k, v in stats.items() if v}]


def apply(root, mut):
    """Applies a mutation in place; one that does not fit (any more) does nothing. Tells whether it applied."""
    kind, path = mut[0], mut[1]
    n = resolve(root, path)
    if n is None:
        return False
    if kind == 'text':
        n.text = mut[2] or None
    elif kind == 'attr':
        if mut[2] not in n.attrs:
            return False
        n.attrs[mut[2]] = mut[3]
    elif kind == 'delattr':
        return n.attrs.pop(mut[2], None) is not None
    elif kind == 'addattr':
        n.attrs[mut[2]] = mut[3]
    elif kind == 'addtext':
        n.text = (n.text or '') + mut[2]
    elif kind == 'rename':
        if not path:
            return False
        n.tag = mut[2]
    elif kind in ('drop', 'dup', 'nil', 'addtail'):
        if not path:
            return False
        parent = resolve(root, path[:-1])
        if kind == 'drop':
            del parent.kids[path[-1]]
        elif kind == 'dup':
            parent.kids.insert(path[-1], n.copy())
        elif kind == 'nil':
            n.attrs[NIL] = 'true'
        else:
            n.tail = (n.tail or '') + mut[2]
    elif kind in ('swap', 'move'):
        i, j = mut[2], mut[3]
        if max(i, j) >= len(n.kids):
            return False
        if kind == 'swap':
            n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
        else:
            n.kids.insert(j, n.kids.pop(i))
    elif kind == 'shuffle':
        if len(mut[2]) != len(n.kids):
            return False
        n.kids = [n.kids[i] for i in mut[2]]
    elif kind == 'arrive':
        if any(isinstance(i, int) and i >= len(n.kids) for i in mut[2]):
            return False
        n.kids = [n.kids[i].copy() if isinstance(i, int) else Node.from_json(i) for i in mut[2]]
    elif kind == 'insert':
        n.kids.insert(min(mut[2], len(n.kids)), Node.from_json(mut[3]))
    else:
        raise ValueError(kind)
    return True
