"""Value-flow and lock typestate analysis of function entry and exit: one name lookup and at most one registration under
one continuously held lock, the number is the position of the entry holding the name, one event per entry and exit."""
from .recorders import *
from .c12_sources import entry_no
MIN_OBLIGATIONS = 25
FIND, INSERT = ("find", "contains", "count", "at", "equal_range"), ("operator[]", "emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint")
def op(e):
    """name of the map operation a call performs"""
    from engine import prep
    return prep.bare(e.dname).split("::")[-1] if e.dname and HASH.search(e.dname) else None
def layout_of(M, w):
    f = {}
    for p in analyze(M, w).paths:
        for e in p.events:
            if e.kind == "store": f[(e.addr.c, e.size)] = e.val
        f["size"] = p.calls("w_sizeof")[0].args[0].c
    return f
def same_event(r, f, idx):
    """the writes of reservation r are the event f with its function number replaced by idx"""
    for k, v in f.items():
        if k == "size": continue
        want = idx if isinstance(v, Lin) and v.single() == ("arg", 1) else v
        got = r.field(*k)
        if got is None or not (got == want or eqbits(got, want)): return False
    return True
def eqbits(a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and a.w == b.w and bits(a) == bits(b) and None not in bits(a)
def check(rep):
    M = module("api"); L = layout(M)
    rep.assumptions += ["std::unordered_map finds exactly the keys that were inserted", "names passed in stay valid (the instrumentation passes string literals)", "pthread mutexes behave as documented"]
    rep.rule("lookup", "the name passed in is looked up first, in the same map on every path")
    rep.rule("one-lock", "lookup and registration happen under one lock held throughout")
    rep.rule("known", "a known name registers nothing and yields the number stored for it")
    rep.rule("new", "a new name stores the name once, adds one entry that refers to it, and maps the name to the position of that entry")
    rep.rule("event", "every entry and every exit appends exactly one event of its kind with that number")
    rep.rule("returned", "the number returned is the number in the event")
    rep.rule("only-here", "nothing else adds functions or events")
    ent, ext, fn = layout_of(M, "w_event_entry"), layout_of(M, "w_event_exit"), layout_of(M, "w_function")
    rep.ob("event", "Event", any(ent[k] != ext[k] for k in ent if k != "size"), "entry and exit events look the same")
    for d, A in method(M, r"\w+\("):
        nm = re.match(r"taintdag::PolyTracker::~?(\w+)", d).group(1)
        if nm in ("PolyTracker", "function_entry", "function_exit"): continue
        for p in A.paths: rep.ob("only-here", nm, not [r for r in reservations(A, p, L) if r.sec.name in ("Functions", "Events")], f"{nm} adds function entries or events", where(p))
    for d, A in method(M, r"function_exit\("):
        rep.count("methods"); rep.count("paths", len(A.paths)); i = at(A, params(d, A)[0][1])
        for p in A.paths:
            if p.end == "noreturn": continue
            rs = reservations(A, p, L); ev = [r for r in rs if r.sec.name == "Events"]
            rep.ob("event", "function_exit", len(ev) == len(rs) == 1 and ev[0].n == const(ext["size"], 64) and same_event(ev[0], ext, i), f"records {[(str(r.sec), [str(e.val) for e in r.writes]) for r in rs]}", where(p))
    maps, locks, kinds = set(), set(), set()
    for d, A in method(M, r"function_entry\(", readonly=lambda d: bool(HASH.search(d))):
        rep.count("methods"); rep.count("paths", len(A.paths))
        P = params(d, A); name = at(A, P[0][1]), at(A, P[0][1] + 1)
        for p in A.paths:
            if p.end != "ret": continue
            w = where(p); rs = reservations(A, p, L); fnr = [r for r in rs if r.sec.name == "Functions"]; ev = [r for r in rs if r.sec.name == "Events"]; st = calls(p, STRINGS)
            ops = [(k, op(e), e) for k, e in enumerate(p.events) if e.kind == "call" and op(e)]
            fd = [x for x in ops if x[1] in FIND]; ins = [x for x in ops if x[1] in INSERT]
            def key(e): return [t for t in e.args if isinstance(t, Lin) and base_of(t) and base_of(t)[0] == "alloca" and mem_at(A, p, e, t, 8) == name[0] and mem_at(A, p, e, Lin(64, t.c + 8, t.t), 8) == name[1]]
            if not rep.ob("lookup", "function_entry", fd and all(key(x[2]) for x in fd) or any(x[1] == "try_emplace" for x in ins), f"lookups: {[x[1] for x in fd]}", w): continue
            mp = {base_this(x[2]) for x in fd + ins}; maps |= mp
            rep.ob("lookup", "function_entry", len(mp) == 1, f"different maps: {[str(m) for m in mp]}", w)
            # one lock held from before the first map operation to after the last
            first, last = ops[0][0], (ins or fd)[-1][0]
            cand = {e.args[0] for e in p.events[:first] if e.kind == "call" and e.callee == "pthread_mutex_lock"}
            good = {c for c in cand if held(p, first, c) == 1 and not [e for e in p.events[first:last] if e.kind == "call" and e.callee == "pthread_mutex_unlock" and e.args[0] == c]}
            # the registration (string, entry) lies inside, too
            good = {c for c in good if all(held(p, r.i, c) == 1 for r in fnr) and all(held(p, p.events.index(e), c) == 1 for e in st)}
            rep.ob("one-lock", "function_entry", bool(good), "the map is used without one lock held from the lookup to the registration", w); locks |= good
            hit = found(p, fd)
            if hit is True:
                kinds.add("known")
                rep.ob("known", "function_entry", not fnr and not st and not [x for x in ins if x[1] != "operator[]" or any(s.kind == "store" and s.addr == x[2].res for s in p.events)], "registers a name that is already known", w)
                idx = p.ret
                ok = isinstance(idx, Lin) and idx.single() and idx.single()[0] == "ld" and any(a[0] == "call" and any(x[2].res is not None and isinstance(x[2].res, Lin) and x[2].res.single() == a for x in ops) for a in atoms_of(idx)) and (idx.single()[1].c == 16 or idx.single()[1].c == 0 and any(x[1] in ("at", "operator[]") and idx.single()[1] == x[2].res for x in ops))
                rep.ob("known", "function_entry", ok, f"the number of a known name is {idx}", w)
            elif hit is False:
                kinds.add("new")
                if not rep.ob("new", "function_entry", len(fnr) == 1 and len(st) == 1 and fnr[0].n == const(fn["size"], 64), f"{len(st)} names and {len(fnr)} entries added for a new name", w): continue
                rep.ob("new", "function_entry", st[0].args[1] == name[0] and st[0].args[2] == name[1], f"the name stored is {st[0].args[1:]}", w)
                so = fnr[0].field(*[k for k in fn if k != "size"][0])
                rep.ob("new", "function_entry", so is not None and is_field(so, st[0].res.single(), 0, 32), f"the entry refers to {so}", w)
                idx = A._trunc(16, entry_no(A, p, fnr[0], L["Functions"]))
                ok = len(ins) == 1 and inserted(A, p, ins[0], name, idx)
                rep.ob("new", "function_entry", ok, f"the name is not mapped to its entry's position {idx}", w)
                rep.ob("returned", "function_entry", p.ret == idx or eqbits(p.ret, idx), f"returns {p.ret} for a new name", w)
            else:
                rep.ob("lookup", "function_entry", False, f"whether the name is known is not decided (path: {conds(p)})", w); continue
            rep.ob("event", "function_entry", len(ev) == 1 and ev[0].n == const(ent["size"], 64) and same_event(ev[0], ent, idx), f"events: {[[str(e.val) for e in r.writes] for r in ev]}", w)
            rep.ob("returned", "function_entry", p.ret == idx or eqbits(p.ret, idx), f"returns {p.ret}, the event holds {idx}", w)
    rep.ob("lookup", "function_entry", len(maps) == 1 and kinds == {"known", "new"}, f"maps {[str(m) for m in maps]}, outcomes {sorted(kinds)}")
    rep.ob("one-lock", "function_entry", len(locks) == 1, f"locks: {[str(x) for x in locks]}")
def base_this(e):
    """the map an operation works on: the pointer parameter that reaches into the tracing object"""
    for t in e.args:
        b = base_of(t) if isinstance(t, Lin) else None
        if b == ("arg", 0): return t
    return None
def found(p, fd):
    ends = [e.res for e in p.calls() if op(e) in ("end", "cend") and isinstance(e.res, Lin)]
    for c in p.facts.conds:
        if c[0] == "bool":
            for _, o, e in fd:
                if o in ("contains", "count") and isinstance(e.res, Lin) and e.res.single() == c[1]: return bool(c[2])
            continue
        if c[0] not in ("eq", "ne"): continue
        for _, o, e in fd:
            if not isinstance(e.res, Lin): continue
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x == e.res and o == "find" and (y in ends or y == const(0, 64)): return c[0] == "ne"
                if x == e.res and o in ("contains", "count") and isinstance(y, Lin) and y.const and y.c in (0, 1): return (c[0] == "ne") == (y.c == 0)
    return None
def inserted(A, p, x, name, idx):
    k, o, e = x
    def holds(t, v, size): 
        g = mem_at(A, p, e, t, size)
        return g == v or eqbits(g, v)
    slots = [t for t in e.args if isinstance(t, Lin) and base_of(t) and base_of(t)[0] == "alloca"]
    named = [t for t in slots if holds(t, name[0], 8) and holds(Lin(64, t.c + 8, t.t), name[1], 8)]
    if not named: return False
    if o == "operator[]":
        st = [s for s in p.events[k:] if s.kind == "store" and s.addr == e.res]
        return len(st) == 1 and (st[0].val == idx or eqbits(st[0].val, idx))
    if any(holds(Lin(64, t.c + 16, t.t), idx, 2) for t in named): return True
    return any(holds(t, idx, 2) for t in slots if t not in named)
