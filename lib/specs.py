"""What each property's check explores. a/b are the arguments of the harness entries (see harness/src/entries.rs);
ta/tb replace them in the thorough tier."""
import os, re

KIND = {"DUP": 0, "UND": 1, "PAR": 2, "AR": 3, "TY": 4, "CT": 5, "CO": 6, "ALL": 7}
CAT = ["TypeDecl", "TypePar", "TypeRef", "ConstDecl", "PredDecl", "PredPar", "PredRef", "TaskDecl", "TaskPar", "ActDecl", "ActPar", "MethDecl", "MethPar", "TaskRef", "SubRef", "Arg", "ObjDecl", "HtnPar", "GArg", "GPredRef", "GSubRef", "OrdId"]
ALL = (1 << len(CAT)) - 1
def mask(*names):
    return sum(1 << CAT.index(n) for n in names)
def A(kind, mode=3, variant=0):
    return KIND[kind] | mode << 4 | variant << 8

ASSUMPTIONS = [
    "The encoding is the LLVM IR rustc emits for /repo and its dependencies at opt-level 2 with overflow checks (release profile of the harness); the engine's semantics of that IR, the allocator model and z3 are trusted; sampled paths are replayed natively and must agree.",
    "Process-level features (threads, signals, real I/O) are outside the encoding; SipHash is replaced by an arbitrary function of the key for symbolic keys.",
]
NAMES = "all names of the three rich base models (typed, untyped, without task network), each in turn a two-character symbolic name over letter x digit"

def focus(kind, mode=3, cats=ALL, bounds=NAMES, q=40, t=200):
    return [{"label": "focus-v%d" % v, "entry": "sx_focus", "a": A(kind, mode, v), "b": cats, "budget": [q, t], "bounds": bounds} for v in (0, 1, 2)]
def near(kind, mode=3):
    return [{"label": "near-v%d" % v, "entry": "sx_focus", "a": A(kind, mode, v), "b": ALL | 1 << 32, "budget": [30, 100], "thorough_only": v != 0, "bounds": "every name of base model %d in turn with its first or last letter a capital, or with one symbolic character more at the beginning or the end" % v} for v in (0, 1, 2)]
LAY = ["every token in a line of its own", "all in one line", "five tokens in a line", "lines of increasing length"]
def oneline(kind, mode=3, cats=ALL):
    return [{"label": "layout%d-v%d" % (l, v), "entry": "sx_focus", "a": A(kind, mode, v) | l << 60, "b": cats, "budget": [20, 60], "thorough_only": (l, v) not in ((1, 0), (3, 1)), "bounds": NAMES + "; the model laid out as: " + LAY[l]} for l in (1, 2, 3) for v in (0, 1, 2)]
def typed(kind, mode=3):
    return [{"label": "annotated", "entry": "sx_focus", "a": A(kind, mode), "b": ALL | 1 << 33, "budget": [20, 60], "bounds": NAMES + " (typed model); all arguments of atoms and method heads annotated with types"}]
def lists(kind, mode=3):
    return [{"label": "lists", "entry": "sx_lists", "a": A(kind, mode), "b": 3, "tb": 4, "budget": [30, 300], "bounds": "a list of 3 (thorough: 4) constants, objects, predicates, tasks, actions, methods or parameters with symbolic names over 3, symbolic types (or none), 0 to 2 parameters; also the same name for elements of different kinds"}]
def scopes(kind, mode=3):
    return [{"label": "scopes", "entry": "sx_scopes", "a": A(kind, mode), "b": 0, "budget": [20, 60], "bounds": "12 places of an argument; a constant, a parameter or object, and the argument with symbolic names over 2, symbolic types over 2 or none (an object and a constant, or an object and a parameter of the network, do not share a name)"}]
def nested(kind, mode=3):
    return [{"label": "nested", "entry": "sx_nested", "a": A(kind, mode), "b": 4, "tb": 6, "budget": [30, 200], "bounds": "in each of the places of formulas, every nesting of depth 4 (thorough: 6) of connectives and quantifiers around one atom with symbolic predicate and argument"}]
def focus2(label, kind, m1, m2, mode=3, q=20, t=300, **kw):
    return dict({"label": label, "entry": "sx_focus2", "a": A(kind, mode, 0), "b": m1 | m2 << 32, "budget": [q, t], "bounds": "every pair of names of the given categories of the typed base model symbolic together"}, **kw)

PROPS = {}
def prop(pid, jobs, assumptions=(), ext=False):
    PROPS[pid] = {"jobs": jobs, "assumptions": list(assumptions), "ext": ext}

ar = lambda kind, mode=3: [{"label": "arity-v%d" % v, "entry": "sx_arity", "a": A(kind, mode, v), "b": 0, "budget": [20, 60], "bounds": "every argument and parameter list of the base model shortened by one, lengthened by one or by two"} for v in (0, 1, 2)]

prop("P06", focus("UND") + near("UND") + nested("UND") + oneline("UND") + typed("UND") + lists("UND"))
prop("P07", focus("DUP") + near("DUP") + lists("DUP") + oneline("DUP") + [
    {"label": "requirements", "entry": "sx_reqs", "a": A("DUP"), "b": 3, "tb": 5, "budget": [20, 120], "bounds": "requirement lists of up to 3 (thorough: 5) out of 7 keywords"},
])
prop("P08", ar("AR") + focus("AR") + near("AR") + nested("AR") + oneline("AR") + typed("AR") + [
    {"label": "many", "entry": "sx_arity", "a": A("AR"), "b": 1 << 32, "budget": [20, 60], "bounds": "1, 2, 257 or 258 parameters against 1, 2, 257 or 258 arguments in 9 places"}])
prop("P09", [
    {"label": "typing", "entry": "sx_typing", "a": A("TY"), "b": 3, "tb": 4, "budget": [60, 900], "bounds": "26 places where an argument meets a parameter; 3 (thorough: 4) types, every acyclic symbolic hierarchy over them, argument and parameter type symbolic or absent"},
    {"label": "ancestors", "entry": "sx_typing", "a": A("TY"), "b": 9 | 512, "tb": 10 | 512, "budget": [30, 100], "bounds": "the same 26 places; chains of 9 (thorough: 10) types declared from either end, and a type with two parents below a chain; argument and parameter type symbolic or absent"},
] + focus("TY") + near("TY") + oneline("TY") + typed("TY") + scopes("TY"))
prop("P10", [
    {"label": "hierarchy", "entry": "sx_types", "a": A("CT"), "b": 3 | 3 << 4, "tb": 4 | 4 << 4, "budget": [40, 400], "bounds": "type blocks of 3 (thorough: 4) declarations with symbolic names and parents over 3 (4) names"},
    {"label": "chain", "entry": "sx_types", "a": A("CT"), "b": 7, "tb": 9, "budget": [20, 60], "bounds": "chains of 7 (thorough: 9) types declared from either end, the parent of any one of them symbolic"},
    {"label": "focus", "entry": "sx_focus", "a": A("CT"), "b": mask("TypeDecl", "TypePar"), "budget": [20, 60], "bounds": NAMES},
])
prop("P11", focus("PAR") + near("PAR") + nested("PAR") + oneline("PAR") + typed("PAR") + scopes("PAR"))
prop("P12", [
    {"label": "orderings", "entry": "sx_order", "a": A("CO"), "b": 3 | 3 << 4, "tb": 4 | 4 << 4, "budget": [40, 900], "bounds": "3 (thorough: 4) subtasks and 3 (4) symbolic ordering edges in three notations, in a method or the initial task network"},
    {"label": "chain", "entry": "sx_order", "a": A("CO"), "b": 6 | 15 << 4, "tb": 8 | 15 << 4, "budget": [30, 100], "bounds": "6 (thorough: 8) subtasks ordered in a chain, stated from either end, and one symbolic edge stated at any place"},
    {"label": "long", "entry": "sx_order", "a": A("CO"), "b": 256 | 34 << 9, "tb": 256 | 60 << 9, "budget": [40, 200], "bounds": "34 (thorough: 60) subtasks ordered in a chain stated from either end, or one before all others, and one more edge between one of five and any, stated first, between or last"},
    {"label": "focus", "entry": "sx_focus", "a": A("CO"), "b": mask("OrdId"), "budget": [20, 60], "bounds": NAMES},
])
prop("P18", focus("ALL", 2) + ar("ALL", 2) + near("ALL", 2) + nested("ALL", 2) + oneline("ALL", 2) + typed("ALL", 2) + lists("ALL") + scopes("ALL", 2))

DOCN = ["domain blocks", "method with partial order", "methods with single subtasks", "formulas", "problem", "problem htn variants"]
def syn(what):
    out = []
    for i in range(6):
        d = "document '%s' (symx harness syn.rs DOCS[%d]), every token position; " % (DOCN[i], i)
        out.append({"label": "structure-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 60 << 4, "budget": [15, 60], "bounds": d + "one token deleted, duplicated, exchanged with the next, or text ended there"})
        out.append({"label": "words-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 67 << 4, "budget": [20, 60], "bounds": d + "replaced by / preceded by any word of the language"})
        out.append({"label": "bytes1-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 3 << 4 | 1 << 12, "budget": [15, 60], "bounds": d + "replaced by / preceded by an arbitrary ASCII character (digits 0 and 9 stand for all)"})
        out.append({"label": "bytes2-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 1 << 4 | 2 << 12, "tb": i | 3 << 4 | 2 << 12, "budget": [20, 200], "bounds": d + "replaced (thorough: or preceded) by up to two arbitrary ASCII characters"})
        out.append({"label": "splice-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 128 << 4 | 2 << 12, "tb": i | 128 << 4 | 4 << 12, "budget": [20, 200], "bounds": d + "up to two tokens replaced by 1 to 2 (thorough: 4) tokens of one arbitrary character each"})
        out.append({"label": "bytes3-d%d" % i, "entry": "sx_syn", "a": what, "b": i | 1 << 4 | 3 << 12, "budget": [0, 400], "thorough_only": True, "bounds": d + "replaced by up to three arbitrary ASCII characters"})
    return out
prop("P02", syn(1))
prop("P04", syn(2))

def H(t, a, m, s, heads=0, edges=0, rest=0): return t | a << 4 | m << 8 | s << 12 | heads << 16 | edges << 20 | rest << 24
def tdg(what):
    out = [
        {"label": "total", "entry": "sx_tdg", "a": what, "b": H(2, 1, 3, 2), "budget": [30, 60], "bounds": "2 compound tasks, 1 action, up to 3 methods of up to 2 totally ordered subtasks; every task name of the bodies symbolic"},
        {"label": "heads", "entry": "sx_tdg", "a": what, "b": H(2, 1, 3, 2, 1, 0, 2), "budget": [30, 60], "bounds": "as 'total', with the decomposed task of the methods symbolic"},
        {"label": "partial", "entry": "sx_tdg", "a": what, "b": H(2, 1, 2, 3, 0, 2, 2), "tb": H(2, 1, 2, 3, 0, 2), "budget": [30, 400], "bounds": "2 methods of up to 3 subtasks with up to 2 symbolic ordering edges"},
        {"label": "methods4", "entry": "sx_tdg", "a": what, "b": H(3, 1, 4, 2, 0, 0, 2), "budget": [40, 100], "bounds": "3 compound tasks, 4 methods of up to 2 subtasks"},
        {"label": "chain3", "entry": "sx_tdg", "a": what, "b": H(3, 1, 3, 2), "budget": [0, 300], "thorough_only": True, "bounds": "3 compound tasks, up to 3 methods of up to 2 subtasks"},
    ]
    out.append({"label": "chain", "entry": "sx_tdg", "a": what, "b": 5, "tb": 6, "budget": [60, 400], "bounds": "chains of 5 (thorough: 6) tasks declared from either end, ending in nothing, an action or any task; one of the methods with another symbolic subtask before or after, possibly another method of the first or last task"})
    out.append({"label": "deep", "entry": "sx_tdg", "a": what, "b": 20 | 1 << 32, "tb": 24 | 1 << 32, "budget": [30, 100], "bounds": "chains of 20 (thorough: 24) tasks declared from either end, links of 4 forms with nullable tasks and actions between, 6 ends (cycles included), one link with another symbolic subtask"})
    out.append({"label": "oneline", "entry": "sx_tdg", "a": what | 1 << 60, "b": H(2, 1, 3, 2, 0, 0, 2), "tb": H(2, 1, 3, 2), "budget": [20, 60], "bounds": "2 compound tasks, 1 action, 3 methods, all in one line"})
    for v in (0, 1): out.append({"label": "focus-v%d" % v, "entry": "sx_tdgfocus", "a": what | v << 8, "b": mask("TaskRef", "SubRef"), "budget": [20, 60], "bounds": "every task name in the methods of the base models symbolic"})
    return out
prop("P13", tdg(4))
prop("P14", tdg(9))
prop("P15", tdg(2))

def LK(k): return k & 15 | k >> 4 << 16
def lay(label, d, kinds, n, rests, broken, q, t, what, tn=None, **kw):
    j = {"label": "%s-d%d" % (label, d), "entry": "sx_layout", "a": LK(kinds) | n << 4 | rests << 8, "b": d | broken << 4, "budget": [q, t], "bounds": "document '%s'%s, every gap between tokens: %s; %d layouts of the other gaps" % (DOCN[d], " with any one token deleted" if broken else "", what, rests)}
    if tn: j["ta"] = LK(kinds) | tn << 4 | rests << 8
    return dict(j, **kw)
prop("P03",
    [lay("blanks", d, 1, 1, 3, 0, 20, 120, "1 (thorough: up to 3) symbolic blanks", tn=3) for d in range(6)] +
    [lay("comments", d, 2, 1, 1, 0, 20, 120, "a comment of up to 1 (thorough: 2) arbitrary bytes, preceded by a symbolic blank or nothing, followed by the end of the line or of the text", tn=2) for d in range(6)] +
    [lay("glue", d, 4, 0, 3, 0, 20, 60, "nothing next to parentheses") for d in range(6)] +
    [lay("long", d, 8, 0, 1, 0, 20, 60, "very many blanks, line ends or comments") for d in range(6)] +
    [lay("lines", d, 16, 0, 1, 0, 20, 60, "70000 line ends before any one token") for d in range(6)] +
    [lay("broken", d, 1, 1, 1, 1, 20, 120, "1 symbolic blank", **({} if d in (1, 4) else {"thorough_only": True})) for d in range(6)])
J = lambda label, a, b, bounds, q=25, t=120, tb=None: dict({"label": label, "entry": "sx_json", "a": a, "b": b, "budget": [q, t], "bounds": bounds}, **({"tb": tb} if tb else {}))
prop("P05", [
    J("formulas", 0, 2 | 1 << 4, "formulas of nesting 2 with up to 1 (thorough: 2) arbitrary sub-formulas per connective, in the 4 places of formulas; every name symbolic", t=200, tb=2 | 2 << 4),
    J("lists", 1, 3, "typed lists of up to 3 (thorough: 4) names in the 11 places of lists, every grouping of annotations; every name symbolic", tb=4),
    J("networks", 2, 2 | 1 << 4 | 1 << 8, "task networks of up to 2 subtasks, 1 (thorough: 2) ordering edges and 1 (2) constraints, in every notation, in methods and the initial task network; every name symbolic", t=300, tb=2 | 2 << 4 | 2 << 8),
    J("blocks", 3, 0, "domains with two elements of every kind, one block moved anywhere (thorough: any permutation), any block split in two", t=300, tb=1),
    J("problem-blocks", 4, 0, "problems with every permutation of all or five blocks"),
    J("nested", 6, 4, "every nesting of depth 4 (thorough: 6) of connectives and quantifiers around one atom, in the places of formulas", tb=6),
    J("numbers", 7, 0, "integer and real weights of probabilistic effects up to the largest and smallest", tb=0),
    J("requirements", 5, 2, "requirement lists of up to 2 (thorough: 4) of the 7 keywords", tb=4),
] + [{"label": "model-v%d" % v, "entry": "sx_jfocus", "a": v << 8, "b": ALL, "budget": [20, 60], "bounds": NAMES} for v in (0, 1, 2)] + [
    {"label": "annotated", "entry": "sx_jfocus", "a": 0, "b": ALL | 1 << 33, "budget": [20, 60], "bounds": NAMES + " (typed model); all arguments of atoms and method heads annotated with types"},
    {"label": "oneline", "entry": "sx_jfocus", "a": 1 << 60, "b": ALL, "budget": [20, 60], "bounds": NAMES + " (typed model); all in one line"}])

RB = lambda label, apis, doc, mode, n, bounds, q=20, t=120, **kw: dict({"label": label, "entry": "sx_robust", "a": apis, "b": doc | mode << 4 | n << 8, "budget": [q, t], "bounds": bounds}, **kw)
RM = lambda label, apis, g, b, bounds, q=30, t=200, **kw: dict({"label": label, "entry": "sx_robmodel", "a": apis | g << 8, "b": b, "budget": [q, t], "bounds": bounds}, **kw)
p01 = []
for d in (0, 4):
    w = "domain" if d == 0 else "problem"
    p01 += [RB("short-%s" % w, 15, d, 0, 1, "texts of up to 1 (thorough: 2) arbitrary bytes as the %s" % w, t=200, tb=d | 0 << 4 | 2 << 8), RB("kinds-%s" % w, 15, d, 4, 2, "texts of up to 2 (thorough: 3) bytes of 27 kinds as the %s" % w, t=100, tb=d | 4 << 4 | 3 << 8)]
for d in range(6):
    p01 += [RB("replace-d%d" % d, 15, d, 1, 1, "document '%s': any one byte replaced by an arbitrary byte" % DOCN[d]), RB("cut-d%d" % d, 1, d, 3, 1, "document '%s' cut off at any byte, with up to one arbitrary byte appended" % DOCN[d], ta=15),
            RB("insert-d%d" % d, 15, d, 2, 1, "document '%s': an arbitrary byte inserted anywhere" % DOCN[d], thorough_only=True),
            RB("replace2-d%d" % d, 1, d, 1, 2, "document '%s': any two bytes replaced by arbitrary bytes" % DOCN[d], t=300, thorough_only=True),
            RB("tokens-d%d" % d, 15, d, 5, 0, "document '%s': any token removed, repeated, exchanged with the next, or the last" % DOCN[d])]
p01 += [RM("names-v%d" % v, 15, v, ALL, NAMES) for v in (0, 1, 2)] + [RM("arguments-v%d" % v, 15, 3 + v, 0, "every argument and parameter list of the base model shortened by one, lengthened by one or by two") for v in (0, 1, 2)]
p01 += [RM("types", 15, 7, 3 | 3 << 4, "type blocks of 3 symbolic declarations over 3 names"), RM("orderings", 15, 8, 2 | 2 << 4, "2 (thorough: 3) subtasks, 2 (3) symbolic ordering edges, cyclic ones included", tb=3 | 3 << 4),
        RM("methods", 15, 9, H(2, 1, 2, 2, 0, 1), "2 compound tasks, 1 action, 2 methods of up to 2 subtasks and 1 ordering edge, all names symbolic"),
        RM("lists", 15, 13, 2, "lists of 2 (thorough: 3) declarations with symbolic names, types and parameters", tb=3), RM("deep", 15, 14, 20, "chains of 20 tasks with 6 ends (cycles included)"),
        RM("typing", 15, 6, 3, "26 places where an argument meets a parameter, 3 types", thorough_only=True)]
prop("P01", p01, ["Texts are within the stated bounds; in particular nesting is shallow: formulas nested deeper than the stack allows are a known finding."])

G = lambda entry, label, a, b, bounds, q=30, t=200, **kw: dict({"label": label, "entry": entry, "a": a, "b": b, "budget": [q, t], "bounds": bounds}, **kw)
SP = ["as it is", "with any one name replaced by an unknown one", "with all names of any one category made unknown (references) or alike (declarations)", "with any three neighbouring references of one category made unknown, each another name"]
def spoilt(entry, v, mode, stride=1, b=0, what="", **kw):
    a = kw.pop("plus", 0)
    return G(entry, "spoilt%d-v%d" % (mode, v), v | mode << 4 | stride << 8 | a, b, "base model %d %s%s%s" % (v, SP[mode], " (every %dth; thorough: every one)" % stride if stride > 1 else "", what), ta=v | mode << 4 | 1 << 8 | a, **kw)
HASH = "; two runs, the second under any (symbolic) injective assignment of 4 table positions to the keys' digests"
prop("P16", [G("sx_determ", "lists", 13, 2, "lists of 2 declarations of any kind with symbolic names, types and parameters" + HASH, thorough_only=True), G("sx_determ", "deep", 14, 6, "chains of 6 tasks with 6 ends (cycles included)" + HASH, thorough_only=True)] + [spoilt("sx_determ", v, 1, 1 if v == 0 else 4, what=HASH) for v in (0, 1, 2)] + [spoilt("sx_determ", v, 2, what=HASH) for v in (0, 1, 2)] + [spoilt("sx_determ", v, 3, 1 if v == 0 else 3, what=HASH) for v in (0, 1, 2)] + [
    G("sx_determ", "scopes", 15, 0, "12 places of an argument that may be a constant, a parameter or an object" + HASH, thorough_only=True),
    G("sx_determ", "methods", 9, H(2, 1, 2, 2), "2 compound tasks, 1 action, 2 methods of up to 2 subtasks, all names symbolic" + HASH)])
TURN = "; 21 changes of the order of blocks and declarations"
prop("P17", [G("sx_reorder", "lists", 13, 2, "lists of 2 declarations of any kind with symbolic names, types and parameters" + TURN, thorough_only=True), G("sx_reorder", "deep", 14, 8, "chains of 8 tasks with 6 ends (cycles included)" + TURN, thorough_only=True)] + [spoilt("sx_reorder", v, 2, what=TURN) for v in (0, 1, 2)] + [
    G("sx_reorder", "focus-v%d" % v, 10 + v, m, "base model %d, the task, predicate and type references each in turn a two-character symbolic name" % v + TURN, q=40, tb=ALL) for v, m in ((0, mask("TypePar", "GSubRef")), (1, mask("TaskRef", "SubRef")))] + [
    G("sx_reorder", "methods", 9, H(2, 1, 2, 2), "2 compound tasks, 1 action, 2 methods of up to 2 subtasks, all names symbolic" + TURN),
    G("sx_reorder", "methods3", 9, H(2, 1, 3, 2, 0, 0, 2), "2 compound tasks, 1 action, a method of up to 2 subtasks and two of up to 1, all names symbolic" + TURN, tb=H(2, 1, 3, 2)),
    G("sx_reorder", "partial", 9, H(2, 1, 2, 3, 0, 2, 2), "2 methods of up to 3 and 1 subtasks with up to 2 symbolic ordering edges" + TURN, thorough_only=True),
    G("sx_reorder", "scopes", 15, 0, "12 places of an argument that may be a constant, a parameter or an object" + TURN, t=300, thorough_only=True),
    G("sx_reorder", "hierarchy", 7, 3 | 3 << 4, "type blocks of 3 symbolic declarations over 3 names" + TURN)])
OTHER = "; alone, with its problem, with up to two arbitrary characters as the problem, with the domain as the problem, and with two wrong problems"
prop("P19", [G("sx_indep", "lists", 13, 2, "lists of 2 declarations of any kind with symbolic names, types and parameters" + OTHER, thorough_only=True)] + [G("sx_indep", "text-d%d" % d, 15, d | 60 << 4, "document '%s' with one token deleted, duplicated, exchanged with the next, or ended there" % DOCN[d] + OTHER) for d in range(4)] +
    [G("sx_indep", "bytes-d%d" % d, 15, d | 1 << 4 | 1 << 12, "document '%s' with one token replaced by an arbitrary character" % DOCN[d] + OTHER, thorough_only=d != 1) for d in range(4)] +
    [spoilt("sx_indep", v, 1, 4, what=OTHER) for v in (0, 1, 2)] + [spoilt("sx_indep", v, 2, what=OTHER) for v in (0, 1, 2)])
LEN = lambda *l: sum(1 << (x - 1) for x in l)
REN = "any one name replaced everywhere by an arbitrary name of "
prop("P20", [G("sx_rename", "one-v%d" % v, v, LEN(*l) | 1 << 32, "base model %d, %s%s characters (thorough: 1-10; letters, of one character any)" % (v, REN, "/".join(map(str, l))), q=40, t=400, tb=LEN(1, 3, 4, 5, 6, 7, 8, 9, 10) | 1 << 32) for v, l in ((0, (1, 6)), (1, (3, 4)), (2, (5, 7)))] +
    [spoilt("sx_rename", v, 1, 6, b=LEN(6) | 7 << 32, what="; " + REN + "6 letters") for v in (0, 1)] +
    [G("sx_rename", "near", 0, 1 << 61 | 17 << 32, "base model 0, every 17th name (thorough: every one) replaced everywhere by one that differs from another name or a word of the language in a capital or in one character more or less", q=30, t=400, tb=1 << 61 | 1 << 32)] +
    [G("sx_rename", "wide-v%d" % v, v, LEN(2, 3) | 1 << 32 | 1 << 62, "base model %d, %s2 or 3 of any characters a name may have" % (v, REN), q=0, t=600, thorough_only=True) for v in (0, 1, 2)] +
    [spoilt("sx_rename", v, 2, b=LEN(n) | 1 << 63, tb=LEN(1, 7, 32) | 1 << 63, what="; all names extended by the same %d (thorough: 1, 7 or 32) characters (the first symbolic) at the beginning or the end" % n, q=40) for v, n in ((0, 32), (1, 7), (2, 1))])

LT = lambda label, what, d, ops, n, q=20, t=120, **kw: G("sx_lsptext", "%s-d%d" % (label, d), what, d | ops << 4 | n << 12, "document '%s'; one token %s" % (DOCN[d], {60: "deleted, duplicated, exchanged with the next, or the last", 67: "replaced by / preceded by any word of the language", 3: "replaced by / preceded by an arbitrary ASCII character", 1: "replaced by up to %d arbitrary ASCII characters" % n}[ops]), q=q, t=t, **kw)
p21 = []
for d in range(6):
    w = 25 if d < 4 else 22
    p21 += [LT("structure", w, d, 60, 0), LT("bytes", w, d, 3, 1), LT("words", w, d, 67, 0, thorough_only=d not in (0, 4)), LT("bytes2", w, d, 1, 2, q=0, t=300, thorough_only=True),
            G("sx_lsplay", "layout-d%d" % d, (24 if d < 4 else 20) | 1 << 8 | 1 << 12 | 1 << 16, d | 16, "document '%s' with any one token deleted, every gap between tokens in turn a symbolic blank" % DOCN[d], q=0, t=200, thorough_only=True)]
p21 += [G("sx_lsplay", "long-d%d" % d, (25 if d < 4 else 22) | 8 << 8 | 1 << 16, d, "document '%s', every gap between tokens (and before the first) in turn hundreds of blanks, line ends, comments, or a long comment" % DOCN[d]) for d in (0, 4)]
p21 += [G("sx_lsptext", "wrongkind-d0", 22, 0 | 60 << 4, "document 'domain blocks' given as a problem"), G("sx_lsptext", "wrongkind-d4", 25, 4 | 60 << 4, "document 'problem' given as a domain")]
p21 += [G("sx_lspmodel", "focus-v%d" % v, 10 + v, ALL, NAMES) for v in (0, 1, 2)]
p21 += [G("sx_lspmodel", "lists", 13 | 3 << 60, 2, "lists of 2 (thorough: 3) declarations of any kind with symbolic names, types and parameters; lines of increasing length", tb=3)]
p21 += [G("sx_lspmodel", "scopes", 15, 0, "12 places of an argument that may be a constant, a parameter or an object")]
p21 += [G("sx_lspmodel", "arity-v0", 3, 0, "argument lists of the base model shortened or lengthened"), G("sx_lspmodel", "types", 7, 3 | 3 << 4, "type blocks of 3 symbolic declarations over 3 names"), G("sx_lspmodel", "orderings", 8, 2 | 2 << 4, "2 subtasks and 2 symbolic ordering edges", tb=3 | 3 << 4)]
prop("P21", p21, ["A requirement declared twice and cyclic types have no line: for them only the item and its message are decided."])
prop("P22", [
    G("sx_lsphist", "contents", 2, 2 | 6 << 4 | 8 << 8, "histories of 2 notifications (open, change, 2, 3 or no changes at once, save with or without text; any version number) or requests over 2 documents, then a diagnosis of each; contents of 6 kinds (nothing, and letters that are not ASCII, included), one character symbolic", q=60),
    G("sx_lsphist", "alike", 2, 2 | 2 << 4 | 8 << 8 | 1 << 12, "histories of 2 steps over 2 (thorough: 3) documents with similar names (folder, case, query, fragment, scheme, extension, escapes, host)", tb=3 | 2 << 4 | 8 << 8 | 1 << 12),
    G("sx_lspmany", "many", 40, 1, "40 documents opened and changed once (thorough: 20 times) each, then any one changed again and any one diagnosed", tb=20),
    G("sx_lsplong", "long", 20000, 0, "contents with a comment of 20000 (thorough: 200000) characters at 3 places", ta=200000),
    G("sx_lsphist", "steps3", 3, 2 | 2 << 4 | 6 << 8, "histories of 3 steps over 2 documents, contents of 2 kinds (domain, problem), one character symbolic", t=300, ta=4),
    G("sx_lsphist", "documents3", 2, 3 | 2 << 4 | 8 << 8, "histories of 2 steps over 3 documents, contents of 2 kinds", thorough_only=True),
], ["Documents have URIs without a file path, so that no other file is consulted; the client takes the server's messages as they come."])
prop("P24", [
    G("sx_lspconc", "two", 2 | 1 << 8, 6, "2 requests (change, save, diagnosis) in progress at the same time on 1 document; every order of the first 6 (thorough: 8) polls and messages taken by the client, then in turn", tb=8),
    G("sx_lspconc", "two-documents", 2 | 2 << 8, 6, "2 requests in progress at the same time on 2 documents, every order of the first 6 (thorough: 8) steps", tb=8),
    G("sx_lspconc", "three", 3 | 1 << 8, 5, "3 requests in progress at the same time on 1 document, every order of the first 5 (thorough: 7) steps", tb=7, t=900),
    G("sx_lspconc", "many", 7 | 1 << 8, 0, "7 (thorough: 8) requests in progress at the same time on 1 document, polled in turn", ta=8 | 1 << 8),
    G("sx_lspconc", "lazy", 7 | 1 << 8 | 1 << 16, 0, "the same, the client takes messages only after several rounds", ta=8 | 1 << 8 | 1 << 16),
    G("sx_lspconc", "lost", 5 | 5 << 8 | 3 << 16, 0, "a diagnosis and 4 changes of 4 other documents in progress at the same time, polled in turn, the client takes messages only after several rounds"),
    G("sx_lspconc", "lost-any", 4 | 4 << 8 | 2 << 16, 4, "a diagnosis and 3 changes of 3 other documents in progress at the same time, every order of the first 4 (thorough: 6) steps, then in turn", tb=6, t=300),
    G("sx_lspconc", "four", 4 | 1 << 8, 5, "4 requests in progress at the same time on 1 document, every order of the first 5 steps", thorough_only=True, t=900),
], ["Futures are polled one at a time (as tower-lsp polls them) in any order, also without having been woken; parallel threads are outside."])

CMD = "verify, metadata, to_json, to_json into a file"
prop("P23", [
    G("sx_cli", "text-d0", 15, 0 | 60 << 4, CMD + " on document 'domain blocks' with one token deleted, duplicated, exchanged with the next or the last; alone or with a problem"),
    G("sx_cli", "missing", 31, 0 | 32 << 4, CMD + " on document 'domain blocks' cut off after any token; domain or problem file possibly missing"),
    G("sx_cli", "problem-d4", 15 | 32, 4 | 60 << 4, CMD + " on document 'problem' with one token deleted, duplicated, exchanged with the next or the last"),
    G("sx_cli", "bytes-d1", 15, 1 | 1 << 4 | 1 << 12, CMD + " on document 'method with partial order', one token an arbitrary character"),
    G("sx_clibyte", "comment", 0, 0, CMD + " on a domain alone or with a problem, one of which has a comment of an arbitrary byte at the beginning, within or at the end"),
    G("sx_climodel", "methods", 9 | 3 << 16, H(2, 1, 2, 2), "verify, metadata on 2 compound tasks, 1 action, 2 methods of up to 2 subtasks, all names symbolic"),
] + [spoilt("sx_climodel", v, 2, plus=15 << 16) for v in (0, 2)], ["The arguments of the process are given by the harness through clap's own parser; the file system and the two output streams are those of the engine."], ext=True)
prop("P25", [
    G("sx_lspfolder", "others", 1 | 5000 << 8, 0, "folders with any one of 7 other files or folders; the domain begins with a comment of 5000 characters"),
    G("sx_lspfolder", "folder", 3, 0, "folders (at any of 3 paths) with up to 3 (thorough: 5) other files and a domain or not (as .hddl, .pddl or otherwise named), read before or after the others; domain of 4 kinds (one with a comment that is not UTF-8) and problem with one symbolic character each; opened, or saved to disk", ta=5),
], ["Blocking file operations of tokio are done at once (patched dependency); folders with several domains are outside."], ext=True)

def known_findings(path, pid):
    """lines 'finding: property=P01 | <entry> <a> <b> <hex> | what fails'"""
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\w+) \| ([^|]+) \| (.*)", l.strip())
            if m and m.group(1) == pid: out.append({"line": m.group(2).strip(), "what": m.group(3).strip()})
    return out
NOT_APPLICABLE = {}
p26 = [G("sx_saymodel", "names-v%d" % v, 10 + v, ALL, NAMES) for v in (0, 1, 2)] + [G("sx_saymodel", "arity-v%d" % v, 3 + v, 0, "argument and parameter lists of the base model shortened by one, lengthened by one or by two") for v in (0, 1, 2)]
p26 += [G("sx_saymodel", "scopes", 15, 0, "12 places of an argument that may be a constant, a parameter or an object"), G("sx_saymodel", "typing", 6, 2, "26 places where an argument meets a parameter, 2 (thorough: 3) types", tb=3), G("sx_saymodel", "types", 7, 3 | 3 << 4, "type blocks of 3 symbolic declarations over 3 names"),
        G("sx_saymodel", "orderings", 8, 2 | 2 << 4, "2 subtasks and 2 symbolic ordering edges", tb=3 | 3 << 4), G("sx_saymodel", "methods", 9, H(2, 1, 2, 2, 0, 1), "2 compound tasks, 1 action, 2 methods of up to 2 subtasks and 1 ordering edge, all names symbolic", tb=H(2, 1, 3, 2, 0, 1)),
        G("sx_saymodel", "lists", 13, 2, "lists of 2 (thorough: 3) declarations of any kind with symbolic names, types and parameters", tb=3), G("sx_saymodel", "lists-oneline", 13 | 3 << 60, 2, "the same in lines of increasing length"),
        G("sx_sayreqs", "requirements", 0, 2, "requirement lists of up to 2 (thorough: 3) out of 7 keywords", tb=3)]
for d in range(6):
    p26 += [G("sx_saytext", "structure-d%d" % d, 0, d | 60 << 4, "document '%s' with one token deleted, duplicated, exchanged with the next, or the last" % DOCN[d]),
            G("sx_saytext", "bytes-d%d" % d, 0, d | 3 << 4 | 1 << 12, "document '%s' with one token replaced by / preceded by an arbitrary ASCII character (thorough: up to 2)" % DOCN[d], tb=d | 3 << 4 | 2 << 12)]
prop("P26", p26)
