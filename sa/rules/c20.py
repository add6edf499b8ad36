"""C20: hierarchical iterations train the hierarchical feature groups and no others."""
import ast

from .. import world
from ..atoms import Conditions
from ..build import mk_is
from ..framework import call_path, parallel
from ..terms import NONE, show, walk
from .c11 import Loop, bounds_training, leaving, mentions, sentence

WHO = "features-of-an-iteration"
ALL = "all-features-visited"
GUARD = "other-reasons-to-skip"


def part_of(t):
    """The value is a constant position or a slice of another one."""
    if t.op == "phi":
        return any(part_of(k) for k in t.args[1:])
    return t.op == "sub" and t.args[1].op in ("slice", "const")


def leaves(loop):
    """Statements that end a loop before its last element."""
    todo, out = [(x, True) for x in loop.body], []
    while todo:
        n, here = todo.pop()
        if isinstance(n, ast.Break) and here or isinstance(n, ast.Return):
            out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        inner = isinstance(n, (ast.For, ast.While))
        todo += [(k, here and not (inner and k not in n.orelse)) for k in ast.iter_child_nodes(n) if isinstance(k, ast.stmt)
                 or isinstance(k, (ast.ExceptHandler, ast.match_case))]
    return out


def inside(node, stmts):
    return any(k is node for b in stmts for k in ast.walk(b))


def around(fi, node):
    """Loops of a function around a node, outermost first."""
    fn = getattr(fi, "node", None)
    if not isinstance(fn, ast.FunctionDef):
        return []
    found = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While)) and inside(node, n.body)]
    return sorted(found, key=lambda n: (n.lineno, n.col_offset))


def feature_loop(ev):
    """(function, loop) of the innermost for loop around the estimation of a feature."""
    for fi, node in list(reversed(ev.stack)) + [(ev.fi, ev.node)]:
        loops = around(fi, node)
        if loops:
            return (fi, loops[-1]) if isinstance(loops[-1], ast.For) else (fi, None)
    return None, None


def generators(evs, loop):
    """(function, loop, yield) of the generators a loop runs over."""
    calls = {id(k) for k in ast.walk(loop.iter)}
    out = {}
    for g in {ev.fi for ev in evs if ev.stack and id(ev.stack[-1][1]) in calls and ev.fi.is_generator}:
        for y in ast.walk(g.node):
            if isinstance(y, ast.Yield) and around(g, y):
                out[id(y)] = (g, around(g, y)[-1], y)
    return list(out.values())


def guards(body, targets):
    """If statements of a block that decide whether it gets to one of the targets."""
    def has(stmts):
        return any(inside(t, stmts) for t in targets)

    def ends(stmts):
        return any(isinstance(k, (ast.Continue, ast.Return, ast.Break)) for b in stmts for k in ast.walk(b)
                   if not isinstance(b, (ast.For, ast.While)))
    out = []
    for i, n in enumerate(body):
        subs = [getattr(n, x, []) for x in ("body", "orelse", "finalbody")] + [h.body for h in getattr(n, "handlers", [])]
        if isinstance(n, ast.If):
            if has(n.body) != has(n.orelse) or not has([n]) and has(body[i:]) and (ends(n.body) or ends(n.orelse)):
                out.append(n)
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for b in subs:
                if has(b):
                    out += guards(b, targets)
    return out


def leaf_conditions(c):
    if c.op in ("and", "or", "not", "truth"):
        return [x for k in c.kids() for x in leaf_conditions(k)]
    return [c]


def reasons(ev, evs, calls):
    """Branches between the beginning of an iteration and the estimation of a feature."""
    frames = [f for f in list(ev.stack) + [(ev.fi, ev.node)]]
    start = [i for i, (fi, node) in enumerate(frames) if around(fi, node)]
    found = []
    for fi, node in frames[start[0]:] if start else ():
        fn = getattr(fi, "node", None)
        if not isinstance(fn, ast.FunctionDef):
            continue
        targets = [n for e in calls for f, n in list(e.stack) + [(e.fi, e.node)] if f is fi]
        loops = around(fi, node)
        found += guards(loops[0].body if loops else fn.body, targets)
    fi, loop = feature_loop(ev)
    if loop is not None:
        for g in {id(g): g for g, _, _ in generators(evs, loop)}.values():
            found += guards(g.node.body, [y for x, _, y in generators(evs, loop) if x is g])
    ids = {id(n) for n in found}
    return [e for e in evs if e.kind == "branch" and id(e.node) in ids]


def check(rep, p, cls):
    nm = world.short(cls)
    life = world.Life(p, cls)
    life.construct()
    it = life.it
    if "hierarchical_feature_groups" not in life.params:
        return
    v, s, evs = life.run("fit", keep=False)
    loops = [(ev, ev.data["cond"]) for ev in evs if bounds_training(life, ev)] or leaving(life, evs)
    if len(loops) != 1:
        rep.skipped(nm, "no single training loop")
        return
    ev0, cond = loops[0]
    loop = Loop(life, cond, life.st)
    groups, first = loop.opt["hierarchical_feature_groups"], loop.opt["training_iterations_hierarchical_features"]
    calls = [ev for ev in evs if ev.kind == "icall" and ev.data["fi"].name == "calc_parameters"]
    if loop.count is None or not calls:
        rep.skipped(nm, "no counter or no estimation of a feature found")
        return
    fi, features = feature_loop(calls[0])
    if features is None:
        rep.skipped(nm, "no loop over the features found")
    else:
        rep.ok(ALL, nm)
        for fi, n in [(fi, n) for fi, lp in [(fi, features)] + [x[:2] for x in generators(evs, features)] for n in leaves(lp)]:
            rep.add(ALL, nm, "%s:%d in %s" % (fi.module.relpath, n.lineno, fi.qualname),
                    "the loop over the features is left before its end: the features after this one are not trained", call_path(calls[0]))
    for ev in reasons(calls[0], evs, calls):
        c = ev.data["cond"]
        if ev.node is ev0.node:
            continue  # whether there is another iteration
        rep.ok(GUARD, nm)
        if all(x.op == "const" or mentions(x, groups) or mentions(x, first) for x in leaf_conditions(c)):
            continue
        rep.add(GUARD, nm, ev.where(), "whether a feature is trained in an iteration depends on %s, which is no matter of the hierarchy"
                % show(c, 4), call_path(ev))
    for ev in calls[:1]:
        cd = Conditions([loop.count])
        have, inside = True, set()
        for t, val in ev.facts.items():
            if t is cond or not (mentions(t, groups) or mentions(t, first)):
                continue
            if not any(k.op == "cmp" and k.args[0] == "in" and mentions(k.args[2], groups) or k.op == "cmp" and mentions(k, first)
                       for k in walk(t)):
                continue
            if any(k is t for k in walk(cond)):
                continue
            g = cd.form(t)
            have = cd.dd.conj(have, g if val else cd.dd.neg(g))
        members = [k for k in cd.keys if k[0] == "in"]
        if len(members) != 1:
            rep.add(WHO, nm, ev.where(), "whether a feature is trained does not depend on its being one of the hierarchical feature groups"
                    if not members else "several memberships decide whether a feature is trained", call_path(ev))
            continue
        if part_of(members[0][1]):
            rep.add(WHO, nm, ev.where(), "a part of the feature group is looked up among the hierarchical feature groups", call_path(ev))
            continue
        dd = cd.dd
        some = dd.neg(cd.form(mk_is(groups, NONE)))
        early = cd.compare("<", loop.count, first)
        want = dd.neg(dd.conj(dd.conj(some, early), dd.neg(cd.atom(members[0]))))
        w = cd.differ(have, want)
        if w is None:
            rep.ok(WHO, nm)
        else:
            rep.add(WHO, nm, ev.where(), "a feature is trained or left out against the hierarchy when %s" % sentence(w), call_path(ev))
    rep.functions |= it.inlined


def run(p, rep, tier):
    rep.rule(WHO, "the condition under which a feature is estimated in an iteration, as a boolean function, equals: not (there are "
                  "hierarchical groups, the iteration is one of the first, and the group is none of them)")
    rep.rule(ALL, "the loop over the features of an iteration has no statement that leaves it early")
    rep.rule(GUARD, "conditions between the beginning of an iteration and the estimation of a feature are about the hierarchy only")
    parallel(rep, p, world.estimators(p), check, world.short)
    rep.floor(WHO, 8)
    rep.floor(ALL, 8)
