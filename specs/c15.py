"""C15: Merkle trees."""
import hashlib
import vc
from neocore.UInt256 import UInt256
from neocore.Cryptography.MerkleTree import MerkleTree, MerkleTreeNode

SMALL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]
LARGE = [21, 31, 32, 33, 40]


def sha2(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def level(hs):
    out = []
    for i in range(0, len(hs), 2):
        j = i + 1 if i + 1 < len(hs) else i
        out.append(sha2(hs[i] + hs[j]))
    return out


def root(hs):
    while len(hs) > 1:
        hs = level(hs)
    return hs[0]


def leaves(n):
    return [vc.bytes("h%d" % i, 32) for i in range(n)]


def size():
    vc.bound("Merkle trees of 1 to 17, 21, 31, 32, 33 or 40 leaves, any hashes")
    return vc.choice("size", SMALL + LARGE if vc.symbolic else SMALL + LARGE + list(range(41, 140)))


@vc.theorem("C15")
def compute_root():
    hs = leaves(size())
    us = [UInt256(data=h) for h in hs]
    given = list(us)
    r = MerkleTree.ComputeRoot(us)
    vc.check(vc.typename(r) == "UInt256", "the root is a 256 bit number")
    vc.check(bytes(r.ToArray()) == root(hs), "the root is the fold of the leaves")
    vc.check(len(us) == len(given), "the list is left alone")
    for i in range(len(us)):
        vc.check(us[i] is given[i], "the list is left alone")
        vc.check(bytes(us[i].ToArray()) == hs[i], "the leaves are left alone")


@vc.theorem("C15")
def empty():
    vc.check(vc.raises(MerkleTree.ComputeRoot, []), "no leaves, no root")
    vc.check(vc.raises(MerkleTree, []), "no leaves, no tree")


def walk(node, depth, out):
    """checks one subtree and lists its leaves"""
    if node.LeftChild is None:
        vc.check(node.RightChild is None, "a node has two children or none")
        vc.check(depth == 1, "all leaves are at the bottom")
        vc.check(node.IsLeaf(), "a leaf is a leaf")
        out.append(node)
        return
    vc.check(not node.IsLeaf(), "a node with children is no leaf")
    l, r = node.LeftChild, node.RightChild
    vc.check(l.Parent is node and r.Parent is node, "the children know their parent")
    vc.check(not l.IsRoot() and not r.IsRoot(), "a child is not the root")
    vc.check(bytes(node.Hash.ToArray()) == sha2(bytes(l.Hash.ToArray()) + bytes(r.Hash.ToArray())), "a node's hash is that of its children")
    walk(l, depth - 1, out)
    if r is not l:
        walk(r, depth - 1, out)


@vc.theorem("C15")
def shape():
    hs = leaves(size())
    us = [UInt256(data=h) for h in hs]
    t = MerkleTree(us)
    vc.check(bytes(t.Root.Hash.ToArray()) == root(hs), "the hash of the root is the fold of the leaves")
    vc.check(t.Root.IsRoot(), "the root has no parent")
    vc.check(2 ** (t.Depth - 1) >= len(hs) and (len(hs) == 1 or 2 ** (t.Depth - 2) < len(hs)), "the depth is that of the smallest tree")
    out = []
    walk(t.Root, t.Depth, out)
    vc.check(len(out) == len(hs), "every leaf is there once")
    for i in range(len(hs)):
        vc.check(bytes(out[i].Hash.ToArray()) == hs[i], "the leaves are in order")


@vc.theorem("C15")
def hash_array():
    vc.bound("hash arrays of 1 to 9 leaves, any hashes")
    n = vc.choice("size", [1, 2, 3, 4, 5, 6, 7, 8, 9])
    hs = leaves(n)
    for i in range(n):
        for j in range(i):
            vc.assume(hs[i] != hs[j])
    us = [UInt256(data=h) for h in hs]
    out = MerkleTree(us).ToHashArray()
    vc.check(vc.typename(out) == "list", "a list")
    vc.check(len(out) == n, "each hash once")
    for h in hs:
        found = False
        for u in out:
            if bytes(u.ToArray()) == h:
                found = True
        vc.check(found, "every hash is there")


# ---- trees of any size: __Build level by level

BUILD = "neocore.Cryptography.MerkleTree:MerkleTree.__Build"
SEARCH = "neocore.Cryptography.MerkleTree:MerkleTree.__DepthFirstSearch"


@vc.theorem("C15", step=True)
def build_level():
    """the level above any number of nodes: the hypothesis, for that shorter level, is that __Build returns the root over it"""
    build = vc.get(BUILD)
    hs = vc.list("hashes", vc.Bytes(32))
    vc.assume(3 <= len(hs) and len(hs) < 2 ** 40)
    us = [UInt256(data=h) for h in hs]
    nodes = [MerkleTreeNode(u) for u in us]
    below = [MerkleTreeNode() for u in us]
    for i in range(len(hs)):
        nodes[i].LeftChild = below[i]
        nodes[i].RightChild = below[i]
        below[i].Parent = nodes[i]
    given = list(nodes)
    n = len(hs)
    top = MerkleTreeNode()
    calls = []

    def hypothesis(parents):
        calls.append(1)
        m = len(parents)
        vc.check(m == (n + 1) // 2 and 1 <= m and m < n, "half as many parents")
        j = vc.index("parent", m)
        p = parents[j]
        vc.check(vc.typename(p) == "MerkleTreeNode", "a parent is a node")
        vc.check(p.Parent is None, "a parent has no parent yet")
        vc.check(p.LeftChild is nodes[2 * j], "the left child")
        if 2 * j + 1 < n:
            vc.check(p.RightChild is nodes[2 * j + 1], "the right child")
            vc.check(bytes(p.Hash.ToArray()) == sha2(hs[2 * j] + hs[2 * j + 1]), "the hash of both children")
        else:
            vc.check(p.RightChild is nodes[2 * j], "an only child counts twice")
            vc.check(bytes(p.Hash.ToArray()) == sha2(hs[2 * j] + hs[2 * j]), "the hash of an only child, twice")
        vc.check(vc.typename(p.Hash) == "UInt256", "a hash of 256 bits")
        i = vc.index("other parent", m)
        vc.assume(i != j)
        vc.check(parents[i] is not p, "every parent is a node of its own")
        i = vc.index("node", n)
        vc.check(nodes[i].Parent is parents[i // 2], "a node knows its parent")
        return top

    vc.check(vc.call_with(BUILD, hypothesis, build, nodes) is top, "the root over the parents")
    vc.check(len(calls) == 1, "one level at a time")
    vc.check(len(nodes) == n, "the list is left alone")
    i = vc.index("i", n)
    vc.check(nodes[i] is given[i], "the list is left alone")
    vc.check(nodes[i].Hash is us[i] and bytes(us[i].ToArray()) == hs[i], "the hashes are left alone")
    vc.check(nodes[i].LeftChild is below[i] and nodes[i].RightChild is below[i] and below[i].Parent is nodes[i], "what is below is left alone")


@vc.theorem("C15", step=True)
def build_pair():
    """two nodes, with anything below them, have the root over both"""
    build = vc.get(BUILD)
    a = vc.bytes("a", 32)
    b = vc.bytes("b", 32)
    l = MerkleTreeNode(UInt256(data=a))
    r = MerkleTreeNode(UInt256(data=b))
    x = MerkleTreeNode()
    if vc.bool("inner"):
        for n in (l, r):
            n.LeftChild = x
            n.RightChild = x
    nodes = [l, r]
    top = build(nodes)
    vc.check(vc.typename(top) == "MerkleTreeNode" and top.Parent is None, "a root")
    vc.check(top.LeftChild is l and top.RightChild is r, "over both")
    vc.check(l.Parent is top and r.Parent is top, "a node knows its parent")
    vc.check(vc.typename(top.Hash) == "UInt256" and bytes(top.Hash.ToArray()) == sha2(a + b), "the hash of both children")
    vc.check(bytes(l.Hash.ToArray()) == a and bytes(r.Hash.ToArray()) == b, "the hashes are left alone")
    vc.check(l.LeftChild is r.LeftChild and l.RightChild is r.RightChild and l.LeftChild is l.RightChild, "what is below is left alone")
    vc.check(len(nodes) == 2 and nodes[0] is l and nodes[1] is r, "the list is left alone")


@vc.theorem("C15", step=True)
def build_top():
    """one node is the root of itself, with whatever is below it"""
    build = vc.get(BUILD)
    u = UInt256(data=vc.bytes("h", 32))
    node = MerkleTreeNode(u)
    l = MerkleTreeNode()
    r = MerkleTreeNode()
    if vc.bool("inner"):
        node.LeftChild = l
        node.RightChild = r
    before = (node.LeftChild, node.RightChild)
    nodes = [node]
    vc.check(build(nodes) is node, "one node is the root")
    vc.check(len(nodes) == 1 and nodes[0] is node, "the list is left alone")
    vc.check(node.Hash is u and node.Parent is None, "the node is left alone")
    vc.check(node.LeftChild is before[0] and node.RightChild is before[1], "what is below is left alone")


def chain(n):
    """nodes each of which is the left child of the one before"""
    us = [UInt256(data=h) for h in vc.list("chain", vc.Bytes(32), n)]
    out = [MerkleTreeNode(u) for u in us]
    for i in range(n - 1):
        out[i].LeftChild = out[i + 1]
        out[i].RightChild = out[i + 1]
    return out


def tree_over(hs, us, top, calls):
    """the contract of __Build: the root over one new leaf for every hash"""
    def contract(leaves):
        calls.append(1)
        vc.check(len(leaves) == len(us), "a leaf for every hash")
        i = vc.index("leaf", len(us))
        leaf = leaves[i]
        vc.check(vc.typename(leaf) == "MerkleTreeNode", "a leaf is a node")
        vc.check(bytes(leaf.Hash.ToArray()) == hs[i], "with its hash")
        vc.check(leaf.LeftChild is None and leaf.RightChild is None and leaf.Parent is None, "and nothing else")
        j = vc.index("other leaf", len(us))
        vc.assume(i != j)
        vc.check(leaves[j] is not leaf, "every leaf is a node of its own")
        return top
    return contract


@vc.theorem("C15", step=True)
def tree_of_any_size():
    """the tree is what __Build makes of one leaf for every hash; its depth counts the nodes down to the first leaf"""
    hs = vc.list("hashes", vc.Bytes(32))
    vc.assume(1 <= len(hs))
    us = [UInt256(data=h) for h in hs]
    given = list(us)
    depth = vc.int("depth", 1, 2 ** 40 if vc.symbolic else 40)
    nodes = chain(depth)
    calls = []
    t = vc.call_with(BUILD, tree_over(hs, us, nodes[0], calls), MerkleTree, us)
    vc.check(len(calls) == 1, "built once")
    vc.check(t.Root is nodes[0], "the root is that of the leaves")
    vc.check(t.Depth == depth, "the depth of the first leaf")
    vc.check(len(us) == len(hs), "the list is left alone")
    i = vc.index("i", len(hs))
    vc.check(us[i] is given[i] and bytes(us[i].ToArray()) == hs[i], "the list is left alone")


@vc.theorem("C15", step=True)
def root_of_any_size():
    """ComputeRoot is the hash of the root over one leaf for every hash"""
    hs = vc.list("hashes", vc.Bytes(32))
    vc.assume(2 <= len(hs))
    us = [UInt256(data=h) for h in hs]
    given = list(us)
    nodes = chain(vc.int("depth", 1, 2 ** 40 if vc.symbolic else 40))
    calls = []
    r = vc.call_with(BUILD, tree_over(hs, us, nodes[0], calls), MerkleTree.ComputeRoot, us)
    vc.check(len(calls) == 1, "built once")
    vc.check(bytes(r.ToArray()) == bytes(nodes[0].Hash.ToArray()) and vc.typename(r) == "UInt256", "the hash of the root")
    i = vc.index("i", len(hs))
    vc.check(len(us) == len(hs) and us[i] is given[i] and bytes(us[i].ToArray()) == hs[i], "the list is left alone")


@vc.theorem("C15", step=True)
def search_step():
    """the hashes below a node: its own when it is a leaf, else those below its children (the hypothesis)"""
    search = vc.get(SEARCH)
    node = MerkleTreeNode(UInt256(data=vc.bytes("h", 32)))
    l = MerkleTreeNode(UInt256(data=vc.bytes("l", 32)))
    r = l if vc.bool("one child") else MerkleTreeNode(UInt256(data=vc.bytes("r", 32)))
    leaf = vc.bool("leaf")
    if not leaf:
        node.LeftChild = l
        node.RightChild = r
    out = set()
    seen = []

    def hypothesis(n, hashes):
        vc.check(n is l or n is r, "the children are searched")
        vc.check(hashes is out, "into the same set")
        seen.append(n)

    vc.call_with(SEARCH, hypothesis, search, node, out)
    if leaf:
        vc.check(len(seen) == 0 and len(out) == 1, "a leaf has its own hash")
        for u in out:
            vc.check(u is node.Hash, "a leaf has its own hash")
    else:
        vc.check(len(out) == 0, "an inner node has no hash of its own")
        found = 0
        for x in (l, r):
            for n in seen:
                if n is x:
                    found += 1
                    break
        vc.check(found == 2, "both children are searched")


@vc.theorem("C15", step=True)
def hash_array_of_any_tree():
    """ToHashArray lists what the search below the root finds"""
    t = MerkleTree([UInt256(data=vc.bytes("h", 32))])
    a = UInt256(data=vc.bytes("a", 32))
    b = UInt256(data=vc.bytes("b", 32))
    vc.assume(bytes(a.ToArray()) != bytes(b.ToArray()))
    seen = []

    def contract(n, hashes):
        vc.check(n is t.Root and len(hashes) == 0, "searched from the root")
        seen.append(n)
        hashes.add(a)
        hashes.add(b)

    out = vc.call_with(SEARCH, contract, t.ToHashArray)
    vc.check(len(seen) == 1, "searched once")
    vc.check(vc.typename(out) == "list" and len(out) == 2, "a list of what is found")
    vc.check((out[0] is a and out[1] is b) or (out[0] is b and out[1] is a), "a list of what is found")


@vc.theorem("C15")
def levels():
    """the arithmetic of the levels, by induction: d levels over (n + 1) // 2 nodes are d + 1 over n"""
    n = vc.int("n", 2)
    d = vc.int("d", 1, None if vc.symbolic else 200)
    m = (n + 1) // 2
    vc.assume(2 ** (d - 1) >= m and 2 ** (d - 1) < 2 * m)
    if d > 1:
        vc.check(2 ** (d - 1) == 2 * 2 ** (d - 2), "an even number")
    vc.check(2 ** d >= n and 2 ** d < 2 * n, "the depth is that of the smallest tree")
