"""What is run for each property, and within which bounds."""

DROP, VIEW, GETMUT, INTOMUT, WEAK, PARTS, MPARTS, ITER, UNIQUE, ALLOC, CMP, CONV, PANIC, CONC, EXCL, FMT = [1 << k for k in range(1, 17)]

# Errors that need no assertion: the executor finds them wherever they happen.
GENERIC = {"memory", "use-after-free", "double-free", "drop", "data-race", "deadlock", "hang", "panic", "abort", "uninit", "ub", "unreachable"}
ALL_KINDS = GENERIC | {"assert"}

# Operations of the history harness.
CLONE, LEFT, RIGHT, DROPOP, DOWN, INTO, SPL, SPR, UP, WCLONE, MSPL, MSPR, IMMUT, WRITE, GET = [1 << k for k in range(15)]
ALL_OPS = 8191
TREE = LEFT | RIGHT | CLONE | DROPOP
TURN = INTO | IMMUT | MSPL | MSPR | SPL | DROPOP
WEAKS = DOWN | UP | WCLONE | LEFT | RIGHT | DROPOP
GATES = LEFT | RIGHT | DROPOP | DOWN | INTO | SPL | UP | GET
BACK = INTO | IMMUT | DOWN | UP | LEFT | DROPOP

D, DR, R = ["debug"], ["debug", "release"], ["release"]

ANY = "any length up to 2^55 items (symbolic)"
ANYZ = "any length up to usize::MAX (symbolic, zero-size items)"


def run(name, entry, params, covers, bounds, profiles=D, preempt=2, time=600, samples=6, native=32, smt_every=10, xcheck=16, options=(), ir="ir"):
    return dict(ir=ir, options=list(options), name=name, entry=entry, params=params, covers=covers, bounds=bounds, profiles=profiles, preempt=preempt, time=time, samples=samples, native=native, smt_every=smt_every, xcheck=xcheck)


def hist(fam, mask, k, ops, covers=(), zst=False, val=0, b=3, profiles=D, what="", **kw):
    """Every history of k operations out of ops."""
    if val:
        return run("%s histories with values, %d operations%s" % (fam, k, what), "h_%s_hist_val" % fam, [mask, k, val, ops], [100, *covers], "lengths 0..%d; every history of up to %d operations" % (val - 1, k), profiles, **kw)
    return run("%s histories%s, %d operations%s" % (fam, " of zero-size items" if zst else "", k, what), "h_%s_hist%s" % (fam, "_zst" if zst else ""), [mask, k, 0, ops, b], [100, *covers], "%s; every history of up to %d operations" % (ANYZ if zst else ANY, k), profiles, **kw)


def cfg(fam, mask, k, handles, covers=(), ops=ALL_OPS, kinds=16383, b=2, profiles=D, what="", **kw):
    """Handles on arbitrary nodes, then a history."""
    return run("%s configurations of %d handles, %d operations%s" % (fam, handles, k, what), "h_%s_cfg" % fam, [mask, k, 0, ops, b, handles, kinds], [100, *covers], "%s; %d handles on any nodes down to depth 2, with or without the first; then up to %d operations" % (ANY, handles, k), profiles, **kw)


# Weak handles on the whole, its left half, the left half of that.
WCHAIN = 1 << 7 | 1 << 8 | 1 << 10


def revived(fam, mask, k, ops, covers=(), **kw):
    """Weak handles that have outlived the shared ones they came from, on a chain of nodes, then a history."""
    return cfg(fam, mask, k, 2, covers=covers, ops=ops, kinds=WCHAIN, what=" (revived)", **kw)


def deep(fam, mask, k, ops, depth=4, covers=(), kinds=7, paths=6, profiles=D, **kw):
    return run("%s chains of nodes, depth %d" % (fam, depth), "h_%s_deepnode" % fam, [mask, k, 0, ops, depth, kinds, depth, paths], [100, *covers], "%s; any handles (none, shared, weak) on a chain of nodes down to depth %d; then up to %d operations" % (ANY, depth, k), profiles, **kw)


TYPES = {"byte": "single bytes", "odd": "items of 24 bytes", "wide": "items aligned to 64 bytes"}


def types(fam, mask, k, ops, covers=(), kinds=("byte", "odd", "wide"), n=5, profiles=D, **kw):
    """Histories with items of other sizes and alignments."""
    out = [run("%s histories of %s, %d operations" % (fam, TYPES[t], k), "h_%s_hist_%s" % (fam, t), [mask, k, n, ops], [100, *covers], "lengths 0..%d; every history of up to %d operations" % (n - 1, k), profiles, **kw) for t in kinds]
    return out + [run("%s histories of zero-size items aligned to 64 bytes, %d operations" % (fam, k), "h_%s_hist_zwide" % fam, [mask, k, 0, ops, 3], [100, *covers], "%s; every history of up to %d operations" % (ANYZ, k), profiles, **kw)]



def parts(fam, mask, lo, hi, covers=(), kind="", mode=0, b=None, steps=0, other=0, keep=0, end=0, skip=0, uniq=False, profiles=D, what="", **kw):
    b = hi if b is None else b
    e = "h_%s_%sparts%s" % (fam, "m" if uniq else "", kind)
    n = "lengths 0..%d" % (mode - 1) if mode else ANYZ if kind == "_zst" else ANY
    return run("%s parts of %s handles%s, %d..%d parts%s" % (fam, "unique" if uniq else "shared", kind.replace("_", " "), 1 << lo, 1 << hi, what), e, [mask, hi, mode, lo, b, steps, other, keep, end, skip], [100, *covers],
               "%s; %d..%d parts; every order of taking from both ends, %s" % (n, 1 << lo, 1 << hi, "up to %d taken" % steps if steps else "to the end"), profiles, **kw)


def iters(fam, mask, k, covers=(), kind="", mode=0, src=0, b=1, ops=0, profiles=D, what="", **kw):
    n = "lengths 0..%d" % (mode - 1) if mode else ANYZ if kind == "_zst" else ANY
    return run("%s item iterators%s, %d operations%s" % (fam, kind.replace("_", " "), k, what), "h_%s_iter%s" % (fam, kind), [mask, k, mode, src, b, ops], [100, *covers], "%s; any split position (64 bits); every sequence of %d operations on up to 4 iterators" % (n, k), profiles, **kw)


def number(fam, mask, mode, covers=(690, 691), profiles=D, b=0, **kw):
    return run("%s number of parts" % fam, "h_%s_number" % fam, [mask, 0, mode, 0, b], [100, *covers], "every 64-bit number of parts; lengths 0..%d" % (mode - 1) if mode else "every 64-bit number of parts; " + ANY, profiles, **kw)


def conc(name, mask, threads, n, ops, each, preempt=None, covers=(), kinds=63, known=0, keep=3, first=0, stale=0, cache=4096, profiles=D, **kw):
    """Every interleaving, with at most so many preemptions; all of them, with equal states merged, if no number is given."""
    opts = ["--por", "1", "--cache", str(cache)] if preempt is None else []
    how = "every interleaving of atomic operations" + (" with at most %d preemptions" % preempt if preempt is not None else "")
    if stale:
        opts += ["--stale", str(stale)]
        how += "; weak memory, up to %d loads of a path yield a value that is not the latest" % stale
    return run("threads: " + name, "h_conc", [mask, threads, n, ops, each, kinds, known, keep, first], [100, *covers] if not known else [],
               "%d threads with a handle each on a slice of %d items, %d operations each, %s" % (threads, n, each, how), profiles, preempt=preempt or 0, options=opts, **kw)


# Operations of the threads.
T_DROP, T_CLONE, T_LEFT, T_RIGHT, T_SPL, T_WEAK, T_GETMUT, T_INTO, T_READ, T_PARTS, T_DOWN, T_RENEW, T_UP, T_WCLONE, T_WDROP, T_REVIVE, T_GOL, T_GOR = [1 << k for k in range(18)]

# Those that make no more than one part (the others take many steps), and those that make none.
T_LIGHT = T_DROP | T_CLONE | T_LEFT | T_RIGHT | T_WEAK | T_GETMUT | T_INTO | T_READ | T_DOWN | T_RENEW | T_UP | T_WCLONE | T_WDROP | T_REVIVE
T_FLAT = T_DROP | T_GETMUT | T_INTO | T_DOWN | T_UP | T_REVIVE

SEQ = ["rustc's LLVM IR of the crate and of the generic standard-library code it instantiates (opt-level 0 and mem2reg) means what the executor takes it to mean; native replays check this on samples",
       "items are 8 or 16 bytes, or zero-size, and their destructors do nothing but report (other than in the panic harness)", "the allocator always succeeds"]
PAR = SEQ + ["interleavings at atomic operations, all of them or, where so stated, with at most so many preemptions; where all, states of equal 64-bit hashes are taken to be equal",
             "in runs without weak memory, interleavings are sequentially consistent, and what weaker orders allow is covered only by the happens-before race detector",
             "in runs with weak memory: the C++20 model with at most so many stale loads per path; modification order is the order of execution, and no load takes a value from a store that is executed later"]

fams = ("rc", "arc")


def both(f):
    out = []
    for x in fams:
        r = f(x)
        out += r if isinstance(r, list) else [r]
    return out


PLAN = {
    "C01": dict(
        quick=both(lambda f: [hist(f, DROP, 3, ALL_OPS, profiles=DR), hist(f, DROP, 3, ALL_OPS, zst=True), hist(f, DROP, 4, TREE, what=" (halving)", b=4), cfg(f, DROP, 1, 2), revived(f, DROP, 4, UP | DROPOP | INTO), deep(f, DROP, 1, DROPOP | INTO)]),
        thorough=both(lambda f: [hist(f, DROP, 4, ALL_OPS, profiles=DR, time=3000), hist(f, DROP, 4, ALL_OPS, zst=True, time=3000), hist(f, DROP, 6, TREE, what=" (halving)", b=5, time=3000), cfg(f, DROP, 2, 2, time=3000), cfg(f, DROP, 1, 3, time=3000), revived(f, DROP, 5, UP | DROPOP | INTO, time=3000), deep(f, DROP, 2, DROPOP | INTO | UP, paths=15, time=3000), deep(f, DROP, 1, DROPOP | INTO, depth=6, paths=6, time=3000)]),
        assumptions=SEQ),
    "C02": dict(
        quick=both(lambda f: [hist(f, VIEW, 3, ALL_OPS, profiles=DR), hist(f, VIEW, 3, 16383, covers=[201, 202], val=6), hist(f, VIEW, 4, LEFT | SPL | SPR, what=" (halving)", b=4), *types(f, VIEW, 2, 16383)]),
        thorough=both(lambda f: [hist(f, VIEW, 4, ALL_OPS, profiles=DR, time=3000), hist(f, VIEW, 4, 16383, covers=[201, 202], val=5, time=3000), hist(f, VIEW, 6, LEFT | RIGHT | SPL | SPR, what=" (halving)", b=7, time=3000), *types(f, VIEW, 3, 16383, time=3000)]),
        assumptions=SEQ),
    "C03": dict(
        quick=[hist("rc", GETMUT, 3, ALL_OPS, covers=[301, 302], profiles=DR), hist("rc", GETMUT, 3, ALL_OPS, covers=[301, 302], zst=True), hist("rc", GETMUT, 4, WEAKS, covers=[301, 302], what=" (weak handles)", b=4), cfg("rc", GETMUT, 1, 2, covers=[301, 302]), revived("rc", GETMUT, 4, UP | DROPOP | DOWN, covers=[301, 302]), deep("rc", GETMUT, 1, DROPOP | UP, covers=[301, 302])],
        thorough=[hist("rc", GETMUT, 4, ALL_OPS, covers=[301, 302], profiles=DR, time=3000), hist("rc", GETMUT, 4, ALL_OPS, covers=[301, 302], zst=True, time=3000), hist("rc", GETMUT, 5, WEAKS, covers=[301, 302], what=" (weak handles)", b=5, time=3000), cfg("rc", GETMUT, 2, 2, covers=[301, 302], time=3000), cfg("rc", GETMUT, 0, 3, covers=[301, 302], time=3000), revived("rc", GETMUT, 5, UP | DROPOP | DOWN, covers=[301, 302], time=3000), deep("rc", GETMUT, 2, DROPOP | UP | INTO, paths=15, covers=[301, 302], time=3000), deep("rc", GETMUT, 1, DROPOP | UP, depth=6, covers=[301, 302], time=3000)],
        assumptions=SEQ),
    "C04": dict(
        quick=both(lambda f: [hist(f, INTOMUT, 3, ALL_OPS, covers=[401, 402], profiles=DR), hist(f, INTOMUT, 4, BACK, covers=[401, 402], what=" (back and forth)", b=4), cfg(f, INTOMUT, 1, 2, covers=[401, 402], ops=INTO), revived(f, INTOMUT, 4, UP | DROPOP | INTO, covers=[401, 402]), deep(f, INTOMUT, 1, INTO, covers=[401, 402]), deep(f, INTOMUT, 2, INTO | DROPOP, depth=3, covers=[401, 402])]),
        thorough=both(lambda f: [hist(f, INTOMUT, 4, ALL_OPS, covers=[401, 402], profiles=DR, time=3000), hist(f, INTOMUT, 6, BACK, covers=[401, 402], what=" (back and forth)", b=5, time=3000), cfg(f, INTOMUT, 2, 2, covers=[401, 402], time=3000), cfg(f, INTOMUT, 1, 3, covers=[401, 402], ops=INTO, time=3000), revived(f, INTOMUT, 5, UP | DROPOP | INTO, covers=[401, 402], time=3000), deep(f, INTOMUT, 2, INTO | DROPOP | UP, paths=15, covers=[401, 402], time=3000), deep(f, INTOMUT, 1, INTO, depth=6, covers=[401, 402], time=3000)]),
        assumptions=SEQ),
    "C05": dict(
        quick=both(lambda f: [hist(f, WEAK, 3, ALL_OPS, covers=[501, 502], profiles=DR), hist(f, WEAK, 3, ALL_OPS, covers=[501, 502], zst=True), hist(f, WEAK, 4, WEAKS | INTO | IMMUT, covers=[501, 502], what=" (weak handles)", b=4), cfg(f, WEAK, 1, 2, covers=[501, 502], ops=DROPOP | INTO | UP), revived(f, WEAK, 4, UP | DROPOP | INTO, covers=[501, 502]), deep(f, WEAK, 1, DROPOP, covers=[501, 502])]),
        thorough=both(lambda f: [hist(f, WEAK, 4, ALL_OPS, covers=[501, 502], profiles=DR, time=3000), hist(f, WEAK, 4, ALL_OPS, covers=[501, 502], zst=True, time=3000), hist(f, WEAK, 5, WEAKS | INTO | IMMUT, covers=[501, 502], what=" (weak handles)", b=5, time=3000), cfg(f, WEAK, 2, 2, covers=[501, 502], time=3000), revived(f, WEAK, 5, UP | DROPOP | INTO, covers=[501, 502], time=3000), deep(f, WEAK, 2, DROPOP | INTO | UP, paths=15, covers=[501, 502], time=3000), deep(f, WEAK, 1, DROPOP, depth=6, covers=[501, 502], time=3000)]),
        assumptions=SEQ),
    "C06": dict(
        quick=both(lambda f: [parts(f, PARTS, 0, 2, covers=[601, 603, 604, 605], profiles=DR), parts(f, PARTS, 0, 2, covers=[601, 603, 605], kind="_zst"), parts(f, PARTS, 3, 3, b=3, steps=5, other=1, keep=3, end=5, what=", first 5"), parts(f, PARTS, 3, 3, kind="_zst", b=3, steps=5, other=1, keep=1, end=5, what=", first 5"), parts(f, PARTS, 0, 2, covers=[606, 607], other=7, keep=9, end=57, skip=1, what=", skipping"), parts(f, PARTS, 0, 2, covers=[606, 607], kind="_zst", other=7, keep=1, end=57, skip=1, what=", skipping"), *[parts(f, PARTS, 0, 2, covers=[601, 603], kind="_" + t, mode=6) for t in ("byte", "odd", "wide")], parts(f, PARTS, 5, 5, mode=0, b=2, steps=2, other=1, keep=1, end=5, what=", first 2")]),
        thorough=both(lambda f: [parts(f, PARTS, 0, 2, covers=[601, 603, 604, 605], profiles=DR), parts(f, PARTS, 0, 2, covers=[601, 603, 605], kind="_zst"), parts(f, PARTS, 3, 3, b=3, other=5, keep=3, end=5, time=3000), parts(f, PARTS, 3, 3, kind="_zst", b=3, other=1, keep=1, end=5, time=3000), parts(f, PARTS, 4, 4, b=2, steps=6, other=1, keep=2, end=5, time=3000), parts(f, PARTS, 0, 3, covers=[606, 607], other=7, keep=9, end=57, skip=1, what=", skipping"), parts(f, PARTS, 0, 3, covers=[606, 607], kind="_zst", other=7, keep=1, end=57, skip=1, what=", skipping")]),
        assumptions=SEQ),
    "C07": dict(
        quick=both(lambda f: [parts(f, MPARTS, 0, 2, covers=[701], uniq=True, profiles=DR), parts(f, MPARTS, 0, 2, covers=[701], uniq=True, kind="_zst"), parts(f, MPARTS, 0, 2, covers=[701], uniq=True, kind="_val", mode=6), parts(f, MPARTS, 3, 3, covers=[701], uniq=True, b=3, keep=6), parts(f, MPARTS, 0, 2, covers=[706, 707], uniq=True, keep=9, end=57, skip=1, what=", skipping"), parts(f, MPARTS, 0, 2, covers=[706, 707], uniq=True, kind="_zst", keep=1, end=57, skip=1, what=", skipping"), *[parts(f, MPARTS, 0, 2, covers=[701], uniq=True, kind="_" + t, mode=6) for t in ("byte", "odd", "wide")]]),
        thorough=both(lambda f: [parts(f, MPARTS, 0, 2, covers=[701], uniq=True, profiles=DR), parts(f, MPARTS, 0, 2, covers=[701], uniq=True, kind="_zst"), parts(f, MPARTS, 0, 3, covers=[701], uniq=True, kind="_val", mode=10, time=3000), parts(f, MPARTS, 3, 3, covers=[701], uniq=True, b=3, time=3000), parts(f, MPARTS, 4, 4, uniq=True, b=4, steps=9, keep=2, time=3000), parts(f, MPARTS, 0, 3, covers=[706, 707], uniq=True, keep=9, end=57, skip=1, what=", skipping"), parts(f, MPARTS, 0, 3, covers=[706, 707], uniq=True, kind="_zst", keep=1, end=57, skip=1, what=", skipping")]),
        assumptions=SEQ),
    "C08": dict(
        quick=both(lambda f: [iters(f, ITER, 2, covers=[801, 802, 803, 804], profiles=DR), iters(f, ITER, 2, covers=[801, 802, 803, 804], kind="_zst"), iters(f, ITER, 2, covers=[801, 802, 803, 804], kind="_val", mode=5), iters(f, ITER, 3, covers=[801, 802, 804], src=1, ops=15, what=" (one source)"),
                              iters(f, ITER, 2, covers=[805], ops=448 | 3, what=" (skipping)"), iters(f, ITER, 2, covers=[805, 806], kind="_val", mode=5, ops=4032 | 7, what=" (skipping, folding)"), *[iters(f, ITER, 2, covers=[801, 802, 803, 804], kind="_" + t, mode=5, ops=63) for t in ("byte", "odd", "wide")]]),
        thorough=both(lambda f: [iters(f, ITER, 3, covers=[801, 802, 803, 804], profiles=DR, time=3000), iters(f, ITER, 3, covers=[801, 802, 803, 804], kind="_zst", time=3000), iters(f, ITER, 4, covers=[801, 802, 803, 804], kind="_val", mode=4, src=1, time=3000), iters(f, ITER, 4, covers=[801, 802, 804], src=1, ops=15, what=" (one source)", time=3000),
                                 iters(f, ITER, 3, covers=[805], ops=448 | 3, what=" (skipping)", time=3000), iters(f, ITER, 3, covers=[805, 806], kind="_val", mode=5, ops=4032 | 7, what=" (skipping, folding)", time=3000)]),
        assumptions=SEQ),
    "C09": dict(
        quick=both(lambda f: [hist(f, UNIQUE | DROP | VIEW, 5, TURN, covers=[401, 901, 902], what=" (unique handles)"), hist(f, UNIQUE | DROP | VIEW, 5, TURN | WRITE, covers=[201, 401, 901, 902], val=5, what=" (unique handles)"), hist(f, UNIQUE | DROP, 5, TURN, covers=[401, 901, 902], zst=True, what=" (unique handles)", profiles=DR)]),
        thorough=both(lambda f: [hist(f, UNIQUE | DROP | VIEW, 6, TURN, covers=[401, 901, 902], what=" (unique handles)", time=3000), hist(f, UNIQUE | DROP | VIEW, 6, TURN | WRITE, covers=[201, 401, 901, 902], val=5, what=" (unique handles)", time=3000), hist(f, UNIQUE | DROP, 6, TURN, covers=[401, 901, 902], zst=True, what=" (unique handles)", profiles=DR, time=3000)]),
        assumptions=SEQ),
    "C10": dict(
        quick=both(lambda f: [hist(f, ALLOC, 3, ALL_OPS, profiles=DR), hist(f, ALLOC, 3, ALL_OPS, zst=True), hist(f, ALLOC, 5, BACK, what=" (back and forth)"), cfg(f, ALLOC, 1, 2, ops=DROPOP | INTO | SPL | UP), deep(f, ALLOC, 1, DROPOP | INTO, kinds=3), *types(f, ALLOC, 2, ALL_OPS)]),
        thorough=both(lambda f: [hist(f, ALLOC, 4, ALL_OPS, profiles=DR, time=3000), hist(f, ALLOC, 4, ALL_OPS, zst=True, time=3000), hist(f, ALLOC, 6, BACK, what=" (back and forth)", time=3000), cfg(f, ALLOC, 2, 2, time=3000), deep(f, ALLOC, 2, DROPOP | INTO | UP, paths=15, time=3000), *types(f, ALLOC, 3, ALL_OPS, time=3000)]),
        assumptions=SEQ),
    "C11": dict(
        quick=[hist("arc", GETMUT, 3, ALL_OPS, covers=[301, 302], profiles=DR), hist("arc", GETMUT, 3, ALL_OPS, covers=[301, 302], zst=True), hist("arc", GETMUT, 4, WEAKS, covers=[301, 302], what=" (weak handles)", b=4), cfg("arc", GETMUT, 1, 2, covers=[301, 302]), revived("arc", GETMUT, 4, UP | DROPOP | DOWN, covers=[301, 302]), deep("arc", GETMUT, 1, DROPOP | UP, covers=[301, 302])],
        thorough=[hist("arc", GETMUT, 4, ALL_OPS, covers=[301, 302], profiles=DR, time=3000), hist("arc", GETMUT, 4, ALL_OPS, covers=[301, 302], zst=True, time=3000), hist("arc", GETMUT, 5, WEAKS, covers=[301, 302], what=" (weak handles)", b=5, time=3000), cfg("arc", GETMUT, 2, 2, covers=[301, 302], time=3000), cfg("arc", GETMUT, 0, 3, covers=[301, 302], time=3000), revived("arc", GETMUT, 5, UP | DROPOP | DOWN, covers=[301, 302], time=3000), deep("arc", GETMUT, 2, DROPOP | UP | INTO, paths=15, covers=[301, 302], time=3000), deep("arc", GETMUT, 1, DROPOP | UP, depth=6, covers=[301, 302], time=3000)],
        assumptions=SEQ),
    "C12": dict(
        quick=[conc("two, weak memory", CONC, 2, 2, T_LIGHT, 1, stale=1, covers=[1401, 1402, 1403], profiles=DR),
               conc("two, going into parts", CONC, 2, 2, T_GOL | T_GOR | T_DROP | T_INTO | T_REVIVE, 2, kinds=27, covers=[1401, 1402, 1403]),
               conc("two, two operations each", CONC, 2, 2, T_FLAT | T_CLONE, 2, covers=[1401, 1402, 1403]),
               conc("two, two operations each, parts", CONC, 2, 3, T_DROP | T_LEFT | T_RIGHT | T_DOWN | T_UP | T_SPL | T_REVIVE, 2, 1, keep=2, covers=[1401]),
               conc("three, the whole", CONC, 3, 2, T_FLAT | T_CLONE | T_READ | T_WDROP, 1, kinds=9, keep=1, covers=[1401, 1402]),
               conc("three, parts", CONC, 3, 2, T_DROP | T_LEFT | T_RIGHT | T_UP, 1, 1, covers=[1401, 1402]),
               conc("two, every operation", CONC, 2, 2, (1 << 18) - 1, 1, covers=[1401, 1402, 1403])],
        thorough=[conc("two, every operation", CONC, 2, 2, (1 << 18) - 1, 1, covers=[1401, 1402, 1403], profiles=DR),
                  conc("two, weak memory", CONC, 2, 2, (1 << 18) - 1, 1, stale=2, covers=[1401, 1402, 1403], profiles=DR, time=5000),
                  conc("two, two operations each", CONC, 2, 2, T_LIGHT, 2, covers=[1401, 1402, 1403], time=3000),
                  conc("two, going into parts", CONC, 2, 3, T_GOL | T_GOR | T_DROP | T_INTO | T_DOWN | T_REVIVE | T_UP | T_CLONE, 2, covers=[1401, 1402, 1403], time=3000),
                  conc("two, three operations each", CONC, 2, 2, T_FLAT | T_CLONE, 3, covers=[1401, 1402, 1403], time=3000),
                  conc("two, two operations each, parts", CONC, 2, 3, T_DROP | T_LEFT | T_RIGHT | T_DOWN | T_UP | T_SPL | T_REVIVE, 2, 2, keep=2, covers=[1401], time=3000),
                  conc("three, the whole", CONC, 3, 2, T_FLAT | T_CLONE | T_READ | T_WDROP, 1, kinds=9, keep=1, stale=1, covers=[1401, 1402], time=3000),
                  conc("three, parts", CONC, 3, 2, T_DROP | T_LEFT | T_RIGHT | T_UP, 1, 2, covers=[1401, 1402], time=3000)],
        assumptions=PAR),
    "C13": dict(
        quick=[conc("two, weak memory", EXCL, 2, 2, T_LIGHT, 1, stale=2, covers=[1403, 1501, 1502, 1503, 1504], profiles=DR),
               conc("two, two operations each", EXCL, 2, 2, T_FLAT | T_LEFT, 2, kinds=9, covers=[1403, 1501, 1502, 1503, 1504]),
               conc("two, two operations each, weak memory", EXCL, 2, 2, T_FLAT, 2, kinds=9, stale=1, covers=[1403, 1501, 1502, 1503, 1504], profiles=DR),
               conc("exclusive access against a revived handle, weak memory", EXCL, 2, 2, T_REVIVE | T_SPL | T_DROP, 2, kinds=9, keep=1, first=T_GETMUT | T_INTO | T_DROP, stale=2, covers=[1501, 1502, 1503, 1504]),
               conc("exclusive access against two operations", EXCL, 2, 2, T_DROP | T_LEFT | T_SPL | T_UP | T_REVIVE | T_DOWN, 2, keep=1, first=T_GETMUT | T_INTO | T_READ, covers=[1501, 1502, 1503, 1504]),
               conc("exclusive access against revived handles, three operations each", EXCL, 2, 2, T_REVIVE | T_DROP | T_DOWN | T_UP | T_GOL | T_GOR, 3, kinds=9, keep=1, first=T_GETMUT | T_INTO | T_DROP, covers=[1501, 1502, 1503, 1504]),
               conc("three", EXCL, 3, 2, T_DROP | T_UP | T_GETMUT | T_INTO | T_REVIVE, 1, kinds=9, keep=1, covers=[1501, 1502, 1503, 1504]),
               conc("the first known finding", EXCL, 2, 2, (1 << 18) - 1, 1, 2, known=1), conc("the second known finding", EXCL, 2, 2, T_FLAT, 2, known=2),
               conc("two, every operation", EXCL, 2, 2, (1 << 18) - 1, 1, covers=[1403, 1501, 1502, 1503, 1504])],
        thorough=[conc("two, every operation", EXCL, 2, 2, (1 << 18) - 1, 1, covers=[1403, 1501, 1502, 1503, 1504], profiles=DR),
                  conc("two, weak memory", EXCL, 2, 2, (1 << 18) - 1, 1, stale=2, covers=[1403, 1501, 1502, 1503, 1504], profiles=DR, time=5000),
                  conc("two, two operations each", EXCL, 2, 2, T_LIGHT, 2, covers=[1403, 1501, 1502, 1503, 1504], time=3000),
                  conc("two, two operations each, weak memory", EXCL, 2, 2, T_FLAT | T_LEFT, 2, kinds=9, stale=2, covers=[1403, 1501, 1502, 1503, 1504], profiles=DR, time=3000),
                  conc("exclusive access against revived handles, three operations each", EXCL, 2, 2, T_REVIVE | T_DROP | T_DOWN | T_UP | T_GOL | T_GOR | T_LEFT | T_RIGHT | T_GETMUT, 3, kinds=9, first=T_GETMUT | T_INTO | T_DROP | T_GOL, covers=[1501, 1502, 1503, 1504], time=3000),
                  conc("two, three operations each", EXCL, 2, 2, T_FLAT, 3, covers=[1403, 1501, 1502, 1503, 1504], time=3000),
                  conc("exclusive access against two operations", EXCL, 2, 2, T_DROP | T_LEFT | T_SPL | T_UP | T_REVIVE | T_DOWN, 2, keep=1, first=T_GETMUT | T_INTO | T_READ, stale=1, covers=[1501, 1502, 1503, 1504], time=3000),
                  conc("three", EXCL, 3, 2, T_DROP | T_UP | T_GETMUT | T_INTO | T_REVIVE, 1, kinds=9, stale=1, covers=[1501, 1502, 1503, 1504], time=3000),
                  conc("the first known finding", EXCL, 2, 2, (1 << 18) - 1, 1, 2, known=1), conc("the second known finding", EXCL, 2, 2, T_FLAT, 2, known=2)],
        assumptions=PAR),
    "C14": dict(
        quick=[hist("arc", 0, 4, GATES, covers=[301, 302, 401, 402], what=" (gates)"), hist("arc", 0, 4, GATES, zst=True, covers=[301, 302, 401, 402], what=" (gates)"),
               conc("two, gates, two operations each", 0, 2, 2, T_LEFT | T_GETMUT | T_INTO | T_WEAK | T_DOWN, 2, 1, kinds=7, covers=[1403, 1501, 1502, 1503, 1504]),
               conc("two, every operation", 0, 2, 2, (1 << 18) - 1, 1, 1, covers=[1403, 1501, 1502, 1503, 1504]),
               conc("three, gates", 0, 3, 2, T_LEFT | T_GETMUT | T_INTO | T_WEAK | T_DOWN, 1, 1, kinds=7, keep=2, covers=[1403])],
        thorough=[hist("arc", 0, 5, GATES, covers=[301, 302, 401, 402], what=" (gates)", time=3000),
               conc("two, gates, two operations each", 0, 2, 2, T_LEFT | T_GETMUT | T_INTO | T_WEAK | T_DOWN, 2, 2, kinds=7, covers=[1403, 1501, 1502, 1503, 1504], time=3000),
               conc("two, every operation", 0, 2, 2, (1 << 18) - 1, 1, 2, covers=[1403, 1501, 1502, 1503, 1504], time=3000),
               conc("three, gates", 0, 3, 2, T_LEFT | T_GETMUT | T_INTO | T_WEAK | T_DOWN, 1, 2, kinds=7, keep=2, covers=[1403], time=3000)],
        kinds={"deadlock", "hang", "abort"},
        assumptions=PAR),
    "C15": dict(
        quick=[run("comparison and hashing", "h_cmp", [CMP, 4, 3, 63], [100, 1101, 1102, 1103, 1104, 1105, 1106, 1107], "contents of up to 3 items, of 3 values, one of them unequal to itself", DR)],
        thorough=[run("comparison and hashing", "h_cmp", [CMP, 5, 4, 63], [100, 1101, 1102, 1103, 1104, 1105, 1106, 1107], "contents of up to 4 items, of 4 values, one of them unequal to itself", DR)],
        assumptions=SEQ),
    "C16": dict(
        quick=both(lambda f: [run("%s conversions" % f, "h_%s_conv" % f, [CONV, 5, 4], [100, 1201], "lengths 0..4, excess capacity 0..3", DR), run("%s deep copies" % f, "h_%s_deep" % f, [CONV, 6], [100, 1202, 1203], "lengths 0..5, a panic at any item", DR)]),
        thorough=both(lambda f: [run("%s conversions" % f, "h_%s_conv" % f, [CONV, 9, 6], [100, 1201], "lengths 0..8, excess capacity 0..5", DR), run("%s deep copies" % f, "h_%s_deep" % f, [CONV, 10], [100, 1202, 1203], "lengths 0..9, a panic at any item", DR)]),
        assumptions=SEQ),
    "C17": dict(
        quick=both(lambda f: [run("%s panicking destructors" % f, "h_%s_panic" % f, [PANIC, 7, 127], [100, 1301, 1302], "lengths 0..6, a panic at any item, seven scenarios", DR)]),
        thorough=both(lambda f: [run("%s panicking destructors" % f, "h_%s_panic" % f, [PANIC, 12, 127], [100, 1301, 1302], "lengths 0..11, a panic at any item, seven scenarios", DR)]),
        assumptions=SEQ),
    "C18": dict(
        quick=both(lambda f: [number(f, PARTS | MPARTS, 4, profiles=DR), iters(f, ITER, 2, covers=[803, 804], src=7, ops=12, profiles=DR, what=" (splits only)"), iters(f, ITER, 2, covers=[803, 804], src=7, ops=12, kind="_zst", what=" (splits only)")]),
        thorough=both(lambda f: [number(f, PARTS | MPARTS, 9, profiles=DR), number(f, PARTS | MPARTS, 0, b=3), iters(f, ITER, 3, covers=[803, 804], src=7, ops=12, profiles=DR, what=" (splits only)"), iters(f, ITER, 3, covers=[803, 804], src=7, ops=12, kind="_zst", what=" (splits only)")]),
        assumptions=SEQ),
    "C20": dict(
        quick=both(lambda f: [run("%s debug output" % f, "h_%s_debug" % f, [FMT, 3, 31], [100, 1601, 1602, 1603], "up to 2 items (symbolic text, any of them may fail), handles on the whole and on halves, iterators after up to 2 takes, up to 4 parts; alternate form, signs, fills, any width and precision; sinks that fail after 0, 5, 20 or 50 bytes", D, ir="fmt")]),
        thorough=both(lambda f: [run("%s debug output" % f, "h_%s_debug" % f, [FMT, 5, 31], [100, 1601, 1602, 1603], "up to 4 items (symbolic text, any of them may fail), handles on the whole and on halves, iterators after up to 2 takes, up to 4 parts; alternate form, signs, fills, any width and precision; sinks that fail after 0, 5, 20 or 50 bytes", DR, ir="fmt", time=3000)]),
        assumptions=SEQ + ["core's and alloc's formatting code is compiled from the toolchain's sources, along with the crate"]),
}
