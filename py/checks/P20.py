"""A problem definition the program cannot honour is refused by the whole run."""
import os
import random
import re

import case as C
import common as K
import out as O

ID = "P20"
LEVEL = "exploration"
RULE = ("the deck of a random problem is spoilt in one way (unknown command, no mesh, material or block, unknown model, missing or unnamed material parameter, block without material, condition of unknown type, direction, "
        "expression, value or set, unknown integration scheme, quasistatics on several ranks, malformed contact or visualisation command, unknown option value), so that all ranks or only those holding the block concerned can notice, "
        "and run under random schedules: the run must end, with failure, with no rank waiting for another for ever and no output step computed past the initial state; the unspoilt deck must run; non-trivial: more than one rank")
ASSUME = ["one fault in the deck at a time", "the launcher ends the other ranks when one fails", "a set is unknown when the mesh of no rank names it"]


def sub(a, b):
    return lambda t, c, r: re.sub(a, b, t, count=1, flags=re.M)


def add(l):
    return lambda t, c, r: t + l + "\n"


def pick_line(a, f):
    """Changes one of the lines that match."""
    def g(t, c, r):
        ls = t.split("\n")
        k = [i for i, l in enumerate(ls) if re.match(a, l)]
        if not k:
            return t
        i = r.choice(k)
        n = f(ls[i])
        return "\n".join(ls[:i] + ([n] if n is not None else []) + ls[i + 1:])
    return g


def line_sub(a, b):
    return lambda l: re.sub(a, b, l)


BC = r"boundary condition:"


def misspell(l, r=None):
    """Another word than the command at the start of the line."""
    r = r or random.Random(len(l))
    k, v = l.split(":", 1)
    i = r.randrange(len(k))
    q = r.choice([k[:i] + k[i + 1:], k[:i] + k[i] + k[i:], k[:i] + r.choice("abcxyz") + k[i + 1:], k + "s", k.replace(" ", "_"), k.replace(" ", "", 1), "x" + k, k.split(" ")[0]])
    return (q if q != k and q.strip() != k else k + "x") + ":" + v


def any_line(t, c, r):
    ls = t.split("\n")
    i = r.choice([i for i, l in enumerate(ls) if ":" in l and not l.startswith("#")])
    ls[i] = misspell(ls[i], r)
    return "\n".join(ls)


def traction(t, c, r):
    n = [q["name"] or "sideset_%d" % q["id"] for q in c.get("sidesets", [])] + ["sideset_1"]
    return re.sub(r"^(boundary condition): \S+ \S+ ", r"\1: prescribed_traction %s " % r.choice(n), t, count=1, flags=re.M)


SPOIL = {
    "unknown command": add("bogus command: 3"),
    "misspelt command": any_line,
    "final time before the initial one": lambda t, c, r: re.sub(r"^initial time.*\n", "", t, flags=re.M) + "initial time: %r\n" % (c["t1"] + abs(c["t1"]) + 1.0),
    "material parameter without a value": pick_line("material parameters", line_sub(r" \S+$", "")),
    "material parameter with a word for a value": pick_line("material parameters", line_sub(r"\S+$", "abc")),
    "time that is no number": pick_line("final time", line_sub(r"\S+$", "soon")),
    "initial time that is no number": lambda t, c, r: re.sub(r"^initial time.*\n", "", t, flags=re.M) + "initial time: now\n",
    "number of steps that is no number": pick_line("number of load steps", line_sub(r"\S+$", "many")),
    "output frequency that is no number": pick_line("output frequency", line_sub(r"\S+$", "often")),
    "contact penalty that is no number": sub(r"penalty_parameter \S+", "penalty_parameter stiff"),
    "contact penalty without a value": sub(r"penalty_parameter \S+", "penalty_parameter"),
    "contact with an unknown block": lambda t, c, r: re.sub(r"^(contact: .*)\b%s\b" % re.escape(r.choice(c["contact"]["primary"] + c["contact"]["secondary"])), r"\1nosuch", t, flags=re.M) if c.get("contact") else t,
    "time with a unit": pick_line("(initial|final) time", line_sub(r"(\S+)$", r"\1s")),
    "time made of two numbers": pick_line("(initial|final) time", line_sub(r"(\S+)$", r"\1 2.0")),
    "number of steps that is no integer": pick_line("number of load steps", lambda l: l + ".5"),
    "number of steps beyond the range of integers": pick_line("number of load steps", lambda l: l + "0" * 12),
    "number of steps with an exponent": pick_line("number of load steps", lambda l: l + "e2"),
    "output frequency that is no integer": lambda t, c, r: re.sub(r"^output frequency.*\n", "", t, flags=re.M) + "output frequency: 1.5\n",
    "condition value with a unit": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r"\1 0.5m")),
    "condition with two values": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r"\1 0.5 0.5")),
    "condition with an expression and a number": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 "0.5*x" 0.5')),
    "condition with a number and an expression": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 0.5 "0.5*x"')),
    "condition with two expressions": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 "0.5*x" "t"')),
    "condition with an empty expression": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 ""')),
    "condition whose direction is a word": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ )(\S) ", r"\1\2\2 ")),
    "condition of a type that is not implemented": traction,
    "block with further words": pick_line("element block", lambda l: l + " extra"),
    "block whose number is followed by letters": pick_line("element block", line_sub(r"(block_\d+)", r"\1x")),
    "block without a number": pick_line("element block", line_sub(r"block_\d+", "block_")),
    "block without a material": pick_line("element block", line_sub(r"(block_\d+).*", r"\1")),
    "contact penalty with further words": sub(r"penalty_parameter (\S+)", r"penalty_parameter \1 friction 0.5"),
    "visualisation with a misspelt word": add("contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_nam c.e"),
    "visualisation neither on nor off": add("contact visualization: visualize_contact_entities yes visualize_bounding_boxes off file_name c.e"),
    "material parameter with a unit": pick_line("material parameters", lambda l: l + "Pa"),
    "contact penalty with a unit": sub(r"penalty_parameter (\S+)", r"penalty_parameter \1N"),
    "unknown material parameter": pick_line("material parameters", lambda l: l + " viscosity 1.0"),
    "material without parameters": pick_line("material parameters", line_sub(r"(neohookean|elastic).*", r"\1")),
    "line without a colon": add("bogus command"),
    "no mesh file": sub(r"^genesis input file.*\n", ""),
    "no material": pick_line("material parameters", lambda l: None),
    "block without a line": pick_line("element block", lambda l: None),
    "unknown material model": pick_line("material parameters", line_sub(r"(neohookean|elastic) density", "plastix density")),
    "no density": pick_line("material parameters", line_sub(r" density \S+", "")),
    "no bulk modulus": pick_line("material parameters", line_sub(r" bulk_modulus \S+", "")),
    "no shear modulus": pick_line("material parameters", line_sub(r" shear_modulus \S+", "")),
    "block with an unknown material": pick_line("element block", line_sub(r"\S+$", "nosuch")),
    "line for the wrong block": pick_line("element block", line_sub(r"block_\d+", "block_999")),
    "condition on an unknown set": pick_line(BC, line_sub(r"^(boundary condition: \S+) \S+", r"\1 nosuchset")),
    "condition on a set whose name is cut": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+)\S( )", r"\1\2")),
    "condition of an unknown type": pick_line(BC, line_sub(r": \S+", ": fixed_whatever")),
    "condition in an unknown direction": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+) \S", r"\1 q")),
    "unfinished expression": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 "3*(x+"')),
    "unknown function": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 "foo(x)"')),
    "one quote": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r'\1 "x')),
    "condition without a value": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r"\1")),
    "value that is no number": pick_line(BC, line_sub(r"^(boundary condition: \S+ \S+ \S).*", r"\1 abc")),
    "unknown integration scheme": add("time integration scheme: implicit"),
    "quasistatics on several ranks": lambda t, c, r: t + "time integration scheme: quasistatic\n" if c["nranks"] > 1 else t,
    "option that is neither true nor false": lambda t, c, r: re.sub(r"^write timing data file.*\n", "", t, flags=re.M) + "write timing data file: maybe\n",
    "malformed visualisation": add("contact visualization: on"),
    "contact without a penalty": sub(r" penalty_parameter \S+", ""),
    "contact with a misspelt list of primary blocks": sub("primary_blocks|master_blocks", "prime_blocks"),
    "contact with a misspelt list of secondary blocks": sub("secondary_blocks|slave_blocks", "second_blocks"),
    "contact without a list of secondary blocks": sub(r"(secondary_blocks|slave_blocks) .*?penalty", "penalty"),
    "contact with an unknown word": sub("penalty_parameter", "penalty_par"),
    "no output fields": sub(r"^output fields.*\n", ""),
}
# command lines; "D" stands for the arguments of the good run
ARGS = {
    "command line without a deck": lambda a, r: [x for x in a if not x.endswith(".in")],
    "command line with a deck that does not exist": lambda a, r: [re.sub(r".*\.in$", "nosuch.in", x) for x in a],
    "command line with a directory for a deck": lambda a, r: [re.sub(r".*\.in$", ".", x) for x in a],
    "command line asking for VT": lambda a, r: r.sample(a + ["--use_vt"], len(a) + 1),
    "command line asking for UQ": lambda a, r: r.sample(a + ["--use_uq"], len(a) + 1),
    "command line with a value for a switch": lambda a, r: [x for x in a if x.endswith(".in")] + ["--use_tpetra=perhaps"],
}
NEEDS_BC = [k for k in SPOIL if "condition" in k or "expression" in k or k in ("unknown function", "one quote", "value that is no number")]
RACY = ["final time before the initial one"]   # noticed by rank 0 alone, while the others go on
NEEDS_CONTACT = ["contact penalty with further words", "contact with an unknown block", "contact penalty with a unit", "contact penalty that is no number", "contact penalty without a value", "contact without a penalty", "contact with an unknown word",
                 "contact with a misspelt list of primary blocks", "contact with a misspelt list of secondary blocks", "contact without a list of secondary blocks"]


def gen(rng, idx, tier):
    names = list(SPOIL) + list(ARGS)
    picks = []
    for _ in range(5):
        picks.append(rng.choice(names))
    n = rng.choice([1, 2, 3, 3, 4, 5])
    contact = any(p in NEEDS_CONTACT for p in picks) or rng.random() < 0.1
    for _ in range(20):
        c = C.gen_case(rng, nranks=n, contact=contact, maxel=10, maxsteps=3)
        if c["bcs"] or not any(p in NEEDS_BC for p in picks):
            break
    return {"case": c, "sched": K.gen_sched(rng, n), "picks": [{"what": p, "seed": rng.randrange(1 << 30), "sched": K.gen_sched(rng, n)} for p in picks]}


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    yield from driver.default_shrinks(spec)


def valid_set(c, deck):
    s = [C.nsname(q) for q in c["nodesets"]]
    return all(m.group(1) in s for m in re.finditer(r"^boundary condition: \S+ (\S+)", deck, re.M))


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    good = F.deck.decode()
    d, r = K.run_par(ctx, F, "good", spec["sched"])
    K.expect_ok(r, "run with the unspoilt deck")
    probes, n = {}, 0
    for j, p in enumerate(spec["picks"]):
        args = K.args_of(c)
        bad = good
        if p["what"] in ARGS:
            args = ARGS[p["what"]](args, random.Random(p["seed"]))
        else:
            bad = SPOIL[p["what"]](good, c, random.Random(p["seed"]))
        if (bad == good and p["what"] not in ARGS) or (p["what"] == "condition on a set whose name is cut" and valid_set(c, bad)):
            continue
        n += 1
        F.deck = bad.encode()
        d, r = K.run_par(ctx, F, "b%d" % j, p["sched"], args=args)
        for v in r["viol"]:
            if v.split(":")[0] in ("deadlock", "livelock", "hang"):
                raise K.V("does not end", "%s: %s" % (p["what"], v))
        if r["ok"]:
            raise K.V("accepted", "%s: the run reports success" % p["what"])
        for k, q in enumerate(r["ranks"]):
            if q["sig"] in (4, 7, 8, 11):
                raise K.V("crash", "%s: rank %d dies of signal %d" % (p["what"], k, q["sig"]))
        for k, q in enumerate(K.outfiles(c, d)):
            try:
                o = O.Out(q)
            except (OSError, O.Bad, KeyError, IndexError, ValueError):
                continue
            if o.nsteps > 1 and p["what"] not in RACY:
                raise K.V("ran on", "%s: rank %d has written %d output steps" % (p["what"], k, o.nsteps))
        probes["refused: " + p["what"]] = probes.get("refused: " + p["what"], 0) + 1
    return {"nontrivial": n > 0 and c["nranks"] > 1, "probes": probes}
