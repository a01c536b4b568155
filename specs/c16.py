"""C16: trimming a Merkle tree."""
import vc
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree, MerkleTreeNode
from specs.c15 import root


def nodes(node, depth, index, out):
    """every node with its depth (1 is the bottom), its place in its level and its hash"""
    out.append((node, depth, index, bytes(node.Hash.ToArray()), node.LeftChild, node.RightChild))
    if node.LeftChild is not None:
        nodes(node.LeftChild, depth - 1, index * 2, out)
        if node.RightChild is not node.LeftChild:
            nodes(node.RightChild, depth - 1, index * 2 + 1, out)


def flagged(flags, n, depth, index):
    """is any leaf under the node flagged?"""
    w = 2 ** (depth - 1)
    for i in range(index * w, min((index + 1) * w, n)):
        if i < len(flags) and flags[i] != 0:
            return True
    return False


def trimming(n, flags):
    hs = [vc.bytes("h%d" % i, 32) for i in range(n)]
    t = MerkleTree([UInt256(data=h) for h in hs])
    before = []
    nodes(t.Root, t.Depth, 0, before)
    given = bytes(flags)
    t.Trim(flags)
    vc.check(bytes(flags) == given, "the flags are left alone")
    vc.check(bytes(t.Root.Hash.ToArray()) == root(hs), "the root stays")
    reach = [True]
    for node, depth, index, h, l, r in before:
        # a node is reachable when no node above it was cut
        above = True
        d = depth + 1
        i = index // 2
        while d <= t.Depth:
            if not flagged(flags, n, d, i):
                above = False
            d += 1
            i //= 2
        if not above:
            continue
        vc.check(bytes(node.Hash.ToArray()) == h, "a remaining node keeps its hash")
        if depth == 1:
            vc.check(node.LeftChild is None and node.RightChild is None, "a leaf stays a leaf")
        elif flagged(flags, n, depth, index):
            vc.check(node.LeftChild is l and node.RightChild is r, "a subtree with a flagged leaf stays")
        else:
            vc.check(node.LeftChild is None and node.RightChild is None, "a subtree without a flagged leaf is cut")


@vc.theorem("C16")
def trim():
    vc.bound("trees of 1 to 8 leaves, any hashes and any flags")
    n = vc.choice("size", [1, 2, 3, 4, 5, 6, 7, 8] if vc.symbolic else list(range(1, 40)))
    trimming(n, vc.bytes("flags", n))


@vc.theorem("C16")
def trim_flags_given_short():
    vc.bound("trees of 1 to 7 leaves, any hashes, fewer flags than leaves")
    n = vc.choice("size", [1, 2, 3, 4, 5, 6, 7] if vc.symbolic else list(range(1, 20)))
    m = vc.choice("flags given", list(range(n)))
    trimming(n, vc.bytes("flags", m))


@vc.theorem("C16")
def trim_one_leaf():
    vc.bound("trees of 9, 11, 13, 16, 17 or 21 leaves with one flagged leaf, any hashes")
    n = vc.choice("size", [9, 11, 13, 16, 17, 21] if vc.symbolic else [9, 11, 13, 16, 17, 21] + list(range(9, 70)))
    i = vc.choice("leaf", list(range(n)))
    trimming(n, bytes([1 if j == i else 0 for j in range(n)]))


@vc.theorem("C16")
def trim_bytearray():
    vc.bound("trees of 5 leaves with flags in a bytearray")
    trimming(5, vc.bytearray("flags", 5))


@vc.theorem("C16")
def trim_again():
    """what remains is trimmed by other flags"""
    vc.bound("trees of 2 to 5 leaves trimmed twice, any hashes and any flags")
    n = vc.choice("size", [2, 3, 4, 5] if vc.symbolic else list(range(2, 20)))
    hs = [vc.bytes("h%d" % i, 32) for i in range(n)]
    t = MerkleTree([UInt256(data=h) for h in hs])
    before = []
    nodes(t.Root, t.Depth, 0, before)
    first = vc.bytes("flags", n)
    second = vc.bytes("flags afterwards", n)
    t.Trim(first)
    t.Trim(second)
    vc.check(bytes(t.Root.Hash.ToArray()) == root(hs), "the root stays")
    # the parents of leaves which both kept
    both = [flagged(first, n, 2, i) and flagged(second, n, 2, i) for i in range((n + 1) // 2)]
    for node, depth, index, h, l, r in before:
        above = True
        d = depth + 1
        i = index // 2
        while d <= t.Depth:
            w = 2 ** (d - 2)
            if not any(both[i * w:(i + 1) * w]):
                above = False
            d += 1
            i //= 2
        if not above:
            continue
        vc.check(bytes(node.Hash.ToArray()) == h, "a remaining node keeps its hash")
        if depth > 1:
            w = 2 ** (depth - 2)
            if any(both[index * w:(index + 1) * w]):
                vc.check(node.LeftChild is l and node.RightChild is r, "a subtree with a leaf flagged both times stays")
            else:
                vc.check(node.LeftChild is None and node.RightChild is None, "a subtree without one is cut")


# ---- trees of any size: _TrimNode by induction over the depth of the node

TRIM = "neocore.Cryptography.MerkleTree:MerkleTree._TrimNode"


def node(name):
    n = MerkleTreeNode(UInt256(data=vc.bytes(name, 32)))
    n.Parent = None
    return n


def pair(parent, left, right):
    parent.LeftChild = left
    parent.RightChild = right
    left.Parent = parent
    right.Parent = parent


def flag(flags, i):
    return i < len(flags) and flags[i] != 0


@vc.theorem("C16", step=True)
def trim_node():
    """a node of any depth: it loses its children when no leaf below it is flagged, and otherwise keeps them, trimmed in the same way.

    The hypothesis, for the nodes one level below, is the same statement; `left` and `right` stand for "a leaf below that child is flagged"."""
    trim = vc.get(TRIM)
    depth = vc.int("depth", 1)
    index = vc.int("index", 0)
    flags = vc.bytearray("flags")
    top = node("top")
    above = node("above")
    top.Parent = above
    given = bytes(flags)
    kind = vc.choice("kind", ["leaf", "parent of leaves", "deeper"])
    if kind == "leaf":
        vc.assume(depth == 1)
        h = top.Hash
        trim(top, index, depth, flags)
        vc.check(top.LeftChild is None and top.RightChild is None, "a leaf stays a leaf")
        vc.check(top.Hash is h and top.Parent is above, "a leaf is left alone")
        return
    if kind == "parent of leaves":
        vc.assume(depth == 2)
        left, right = flag(flags, index * 2), flag(flags, index * 2 + 1)
    else:
        vc.assume(depth > 2)
        left, right = vc.bool("left"), vc.bool("right")
    one = vc.bool("one child")
    l = node("l")
    r = l if one else node("r")
    if one:
        vc.assume(not right)                # no flags past the last leaf
    pair(top, l, r)
    below = []
    if kind == "deeper":
        ll, lr = node("ll"), node("lr")
        pair(l, ll, lr)
        rl, rr = ll, lr
        if not one:
            rl = node("rl")
            rr = rl if vc.bool("one grandchild") else node("rr")
            pair(r, rl, rr)
        below = [ll, lr, rl, rr]
        if vc.bool("deeper still"):
            for x in below:
                y = node("below")
                pair(x, y, y)
    seen = [top, above, l, r] + below
    hashes = [x.Hash for x in seen]
    parents = [x.Parent for x in seen]
    values = [bytes(x.Hash.ToArray()) for x in seen]
    kids = [(x.LeftChild, x.RightChild) for x in below]

    def hypothesis(n, i, d, f):
        vc.check(bytes(f) == given, "the flags are handed on")
        vc.check(d == depth - 1, "the children are one level deeper")
        if kind == "parent of leaves":
            vc.check(n is l or n is r, "the children are leaves")
            return
        vc.check(n is l or n is r, "the children are trimmed")
        vc.check(n.LeftChild is not None, "no subtree is trimmed twice")
        if n is l:
            vc.check(i == index * 2, "the place of the left child")
            kept = left
        else:
            vc.check(i == index * 2 + 1, "the place of the right child")
            kept = right
        if not kept:
            n.LeftChild = None
            n.RightChild = None

    vc.call_with(TRIM, hypothesis, trim, top, index, depth, flags)
    vc.check(bytes(flags) == given, "the flags are left alone")
    for i in range(len(seen)):
        vc.check(seen[i].Hash is hashes[i] and bytes(seen[i].Hash.ToArray()) == values[i], "no hash changes")
        vc.check(seen[i].Parent is parents[i], "no parent changes")
    for i in range(len(below)):
        vc.check(below[i].LeftChild is kids[i][0] and below[i].RightChild is kids[i][1], "what is further below is left to the hypothesis")
    if not left and not right:
        vc.check(top.LeftChild is None and top.RightChild is None, "a subtree without a flagged leaf is cut")
        return
    vc.check(top.LeftChild is l and top.RightChild is r, "a subtree with a flagged leaf stays")
    if kind == "deeper":
        vc.check((l.LeftChild is ll and l.RightChild is lr) if left else (l.LeftChild is None and l.RightChild is None), "the left child is trimmed")
        if not one:
            vc.check((r.LeftChild is rl and r.RightChild is rr) if right else (r.LeftChild is None and r.RightChild is None), "the right child is trimmed")
    else:
        vc.check(l.LeftChild is None and r.LeftChild is None, "the leaves stay leaves")


@vc.theorem("C16", step=True)
def trim_any():
    """Trim trims from the root, with a flag for every place in the lowest level"""
    t = MerkleTree([UInt256(data=vc.bytes("h", 32))])
    top = node("root")
    t.Root = top
    t.Depth = vc.int("depth", 1, None if vc.symbolic else 14)
    flags = vc.bytes("flags")
    given = bytearray(flags)
    calls = []

    def trim_node(n, i, d, f):
        calls.append(n)
        vc.check(n is top, "trimmed from the root")
        vc.check(i == 0, "from the first leaf")
        vc.check(d == t.Depth, "down to the leaves")
        vc.check(bytes(f[:len(flags)]) == flags, "with the flags given")
        j = vc.index("place", len(f))
        vc.assume(j >= len(flags))
        vc.check(f[j] == 0, "and none past them")

    vc.call_with(TRIM, trim_node, t.Trim, given)
    vc.check(len(calls) == 1, "trimmed once")
    vc.check(bytes(given) == flags, "the flags are left alone")
    vc.check(t.Root is top and top.Parent is None, "the root stays")


@vc.theorem("C16")
def places():
    """the arithmetic of the places, by induction: a level with as many places as nodes covers every leaf, and so does the one above"""
    n = vc.int("n", 1)
    nodes = vc.int("nodes", 1)
    width = vc.int("width", 1)
    vc.assume(nodes * width >= n)
    vc.check((nodes + 1) // 2 * (2 * width) >= n, "no leaf is past the last node of a level")
