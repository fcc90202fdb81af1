"""What each property's check runs."""

CODEC = "TraceCodec.tla"
SEQ = "TraceSeq.tla"


def far(r):
    """Long values and encodings with something wrong far into them."""
    base = r.seed * 1000 + 23
    return [lambda k=k: r.trace(f"far-{k}", CODEC, ["codec", "far", "{out}", str(base + k), "80" if r.quick else "250"], starts=("onew", "inew")) for k in range(2 if r.quick else 16)]


def codec_rand(r, n, events, tag="any", bin="codec", env=None, name="rand"):
    base = r.seed * 1000 + 1
    return [lambda k=k: r.trace(f"{name}-{tag}-{k}", CODEC, [bin, "rand", "{out}", str(base + k), str(events), tag], starts=("onew",), env=env) for k in range(n)]


def whole(r, tag="any", n=1, bin="codec", env=None, name="all"):
    """Every value of the first bytes of encodings."""
    base = r.seed * 1000 + 29
    return [lambda k=k: r.trace(f"{name}-{tag}-{k}", CODEC, [bin, "all", "{out}", str(base + k), "3" if r.quick else "6", tag], starts=("all",), env=env) for k in range(n)]


def ranges(r):
    """Ranges of numbers, of code points and of lengths."""
    return [lambda: r.trace("ranges", CODEC, ["codec", "sweep", "{out}", str(r.seed * 1000 + 31), "0" if r.quick else "1"], starts=("runs", "ints", "lens"), timeout=300 if r.quick else 800)]


def huge(r):
    return [lambda k=k: r.trace(f"huge-{k}", CODEC, ["codec", "huge", "{out}", str(k), "4"], starts=("onew",)) for k in range(4)]


def generated(r, tag="any", keep=lambda s: True, most=40000, always=(), bin="codec", env=None, name="mccodec", parts=None):
    """The model of the codec on boundary values; scripts made of them."""
    parts = parts or (4 if r.quick else 8)
    def job(k):
        def run():
            m = r.mc(f"{name}{k}", "MCCodec.tla", "MCCodec.cfg", env=dict(env or {}, DEEP="0" if r.quick else "1", PART=k, PARTS=parts, TAG=tag), workers=1, heap="3g")
            ls = sample(r, [x for x in m["scripts"] if keep(x)], most // parts)
            if k == 0: ls = list(always) + ls
            return r.scripts(f"{name}{k}", CODEC, ls, [bin, "script", "{script}", "{out}"], 2 if r.quick else 8, env=env)
        return run
    return [job(k) for k in range(parts)]


# A duration of more than 2^64 seconds, for which there is no value.
OVERFLOW = "X Duration | " + " ".join(["255"] * 8 + ["0", "202", "154", "59"])
def streams(r, keep=lambda x: True):
    """All short histories over output and input streams."""
    def job():
        m = r.mc("mcstream", "MCStream.tla", "MCStream.cfg", env=dict(DEEP="0" if r.quick else "1"), workers=4)
        ls = sample(r, [x for x in m["scripts"] if keep(x)], 12000 if r.quick else 200000, always=True)
        return r.scripts("mcstream", CODEC, ls, ["codec", "script", "{script}", "{out}"], 3 if r.quick else 16)
    return [job]


def writes(x): return "~N" not in x and not x.startswith("I")
def reads(x): return not writes(x)


def single(x): return x.startswith("X ")
def stream(x): return x.startswith("O ")


def declared(r, n=1):
    """Values of types declared at random with the derive macros."""
    jobs = []
    for k in range(n):
        x = r.declared(k, 20 if r.quick else 40)
        if x is None: continue
        jobs += codec_rand(r, 1 if r.quick else 4, 10000 if r.quick else 40000, "derived", bin=x[1], env=x[0], name=f"declared{k}")
        jobs += whole(r, "derived", 1, x[1], x[0], f"declared{k}-all")
    return jobs


def codec(tag="any", with_huge=False, keep=lambda x: True, rand=6, always=(), short=None, slots=False):
    def plan(r):
        jobs = generated(r, tag, keep, always=always)
        if short: jobs += streams(r, short)
        if slots: jobs += slot_rand(r, 2 if r.quick else 16)
        if with_huge: jobs += huge(r)
        jobs += far(r) + declared(r, 1 if r.quick else 4) + whole(r, tag, 1 if r.quick else 8) + ranges(r)
        jobs += codec_rand(r, rand if r.quick else 64, 12000 if r.quick else 40000, tag)
        r.par(jobs)
    return plan


def seq(r):
    """Bounded slices and iterators: enumerated and random histories, skipping."""
    import random
    rng = random.Random(r.seed)
    def pick(xs, most):
        return xs if len(xs) <= most else rng.sample(xs, most)
    def enumerated():
        m = r.mc("mcseq", "MCSeq.tla", "MCSeq.cfg", env=dict(DEEP="0" if r.quick else "1"), workers=4)
        ls = pick(m["scripts"], 12000) if r.quick else m["scripts"]
        return r.scripts("mcseq", SEQ, ls, ["seq", "script", "{script}", "{out}"], 6 if r.quick else 16, starts=("qnew",))
    def listed():
        g = r.mc("genseq", "GenSeq.tla", "GenSeq.cfg", workers=1)
        # In the quick tier every property looks closest at what is most about it.
        kind = lambda x: 11 if ";iter " in x else 12 if ";dct " in x else 9
        ls = [x for k in (9, 11, 12) for x in pick([y for y in g["scripts"] if kind(y) == k], 6000 if r.prop == f"C{k:02}" else 1500)] if r.quick else g["scripts"]
        return r.scripts("genseq", SEQ, ls, ["seq", "script", "{script}", "{out}"], 2 if r.quick else 8, starts=("qnew",))
    jobs = [enumerated, listed]
    base = r.seed * 1000 + 7
    jobs += [lambda k=k: r.trace(f"seqrand-{k}", SEQ, ["seq", "rand", "{out}", str(base + k), str(12000 if r.quick else 40000)], starts=("qnew",)) for k in range(4 if r.quick else 32)]
    if r.prop == "C11":
        jobs.append(lambda: r.trace("nth", SEQ, ["seq", "nth", "{out}"], starts=("qnth",)))
    r.par(jobs)


def derived(r):
    """The registered declarations, and random ones."""
    jobs = generated(r, "derived") + whole(r, "derived", 1 if r.quick else 8) + codec_rand(r, 2 if r.quick else 32, 12000 if r.quick else 40000, "derived")
    for k in range(len(r.rounds)):
        env, d = r.program(k)
        jobs += generated(r, "derived", bin=d, env=env, name=f"program{k}-", parts=2, most=24000 if r.quick else 40000)
        jobs += codec_rand(r, 2 if r.quick else 8, 10000 if r.quick else 40000, "derived", bin=d, env=env, name=f"program{k}-rand")
        jobs += whole(r, "derived", 1 if r.quick else 4, d, env, f"program{k}-all")
    r.par(jobs)


def sample(r, xs, most, always=False):
    import random
    return xs if len(xs) <= most or not (r.quick or always) else random.Random(r.seed).sample(xs, most)


def slot_rand(r, n):
    base = r.seed * 1000 + 11
    return [lambda k=k: r.trace(f"slotrand-{k}", "TraceSlot.tla", ["slot", "rand", "{out}", str(base + k), str(20000 if r.quick else 60000)], starts=("snew",)) for k in range(n)]


def slot(r):
    """Slots: enumerated and random histories."""
    def enumerated():
        m = r.mc("mcslot", "MCSlot.tla", "MCSlot.cfg", env=dict(DEEP="0" if r.quick else "1"), workers=4)
        ls = sample(r, m["scripts"], 40000)
        return r.scripts("mcslot", "TraceSlot.tla", ls, ["slot", "script", "{script}", "{out}"], 4 if r.quick else 16, starts=("snew",))
    r.par([enumerated] + slot_rand(r, 4 if r.quick else 32))


def text(r):
    """Bounded strings: enumerated, listed and random histories."""
    deep = dict(DEEP="0" if r.quick else "1")
    def run(name, spec, most, shards):
        def job():
            m = r.mc(name, spec + ".tla", spec + ".cfg", env=deep, workers=4)
            ls = sample(r, m["scripts"], most, always=not r.quick)
            return r.scripts(name, "TraceText.tla", ls, ["text", "script", "{script}", "{out}"], shards, starts=("tnew",))
        return job
    base = r.seed * 1000 + 13
    r.par([run("mctext", "MCText", 16000 if r.quick else 300000, 4 if r.quick else 24), run("gentext", "GenText", 20000 if r.quick else 100000, 4 if r.quick else 8)]
          + [lambda k=k: r.trace(f"textrand-{k}", "TraceText.tla", ["text", "rand", "{out}", str(base + k), str(15000 if r.quick else 60000)], starts=("tnew",)) for k in range(4 if r.quick else 32)])


def errors(r):
    """Errors made directly, and those real calls report."""
    base = r.seed * 1000 + 17
    r.par([lambda: r.mc("mcerror", "MCError.tla", "MCError.cfg", workers=2)]
          + [lambda k=k: r.trace(f"errors-{k}", "TraceErr.tla", ["errors", "rand", "{out}", str(base + k), str(12000 if r.quick else 50000)], starts=("err",)) for k in range(2 if r.quick else 16)]
          + codec_rand(r, 4 if r.quick else 32, 12000 if r.quick else 40000) + far(r) + declared(r, 1 if r.quick else 4) + whole(r, "any", 1 if r.quick else 8) + ranges(r))


def cells(r):
    """Locks, cells, lazies: enumerated interleavings, races, and their encodings as such."""
    def enumerated():
        m = r.mc("mccells", "MCCells.tla", "MCCells.cfg", env=dict(DEEP="0" if r.quick else "1"), workers=4)
        ls = sample(r, m["scripts"], 24000 if r.quick else 400000, always=True)
        return r.scripts("mccells", "TraceCells.tla", ls, ["cells", "script", "{script}", "{out}"], 8 if r.quick else 24, starts=("cnew",))
    base = r.seed * 1000 + 19
    r.par([enumerated] + [lambda k=k: r.trace(f"race-{k}", "TraceCells.tla", ["cells", "race", "{out}", str(base + k), str(400 if r.quick else 4000)], starts=("crace",)) for k in range(2 if r.quick else 4)]
          + codec_rand(r, 4 if r.quick else 32, 12000 if r.quick else 40000, "cell") + whole(r, "cell", 1 if r.quick else 8))


def equivalent(r):
    """Wrappers as their content; what one of several equivalent types wrote, read as another."""
    import json
    types = json.load(open(r.types))
    def keep(x):
        name = x.split(" |")[0].split("P ")[-1][0:] if stream(x) else x[2:].split(" |")[0]
        return (stream(x) and x.rsplit("~D ", 1)[-1].split("~")[0] != name) or "wrap" in types[name]["tags"]
    r.par(generated(r, "any", keep) + codec_rand(r, 6 if r.quick else 64, 12000 if r.quick else 40000, "wrap") + whole(r, "wrap", 1 if r.quick else 8))


PLANS = {
    "C17": errors,
    "C10": text,
    "C08": slot,
    "C09": seq, "C11": seq, "C12": seq,
    "C01": codec(), "C02": codec(with_huge=True), "C03": codec(keep=stream, slots=True), "C04": codec(keep=single, always=[OVERFLOW]), "C05": codec(with_huge=True, keep=stream),
    "C06": codec(keep=stream, short=writes), "C07": codec(keep=stream, short=reads), "C16": codec(keep=stream, short=lambda x: True, slots=True),
    "C13": derived, "C15": equivalent, "C14": cells,
}
