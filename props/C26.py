"""C26: UGBS exponents are returned complete, in order and by shell."""
import io

from props.C25 import Writer
from vf.engine import Job

FUNCTIONS = ["parse_ugbs.get_ugbs_exponents"]
BOUNDS = {"file": "1 to 4 (5) entries, every sequence over 3 (4) element names and the shells S, P, D, F, with the shipped file's comments, title and blank lines; two long files of fixed sequence (143 and 171 entries)",
          "numbers": "every exponent and every contraction coefficient any real, plain and with an E exponent"}
ASSUMPTIONS = ["the file is the stand-in's text, opened with the built-in open", "an entry is a line 'element shell' followed by a line 'exponent coefficient', as everywhere in the shipped file"]

HEAD = ("# Elements                             References\n# --------                             ----------\n"
        "# H He Li Be B C N O F: E. V. R. de Castro and F. E. Jorge, Accurate universal Gaussian basis set\n#\n\n\n\nBASIS \"ao basis\" PRINT\n")
SHELLS = "SPDF"


def number(env, w, name, form):
    """(text, value) in the notations of the shipped file."""
    text, v = w.num(name, 6, False)
    if form:
        new = text + "E-002"
        if env.symbolic:
            w.bound[new] = w.bound.pop(text)
        else:
            v = env.used[name] = float(new)
        text = new
    return text, v


def opener(env, text, asked):
    def fake(path, mode="r", *a, **k):
        path = str(path).replace("\\", "/")
        if not path.endswith("/data/ygbs"):
            raise FileNotFoundError(path)
        asked.append(path)
        return io.StringIO(text)
    env.hook("open", fake)


def listed(env, elements, shells, count, tail):
    """every sequence of entries over the elements and shells."""
    env.fresh_modules()
    w = Writer(env)
    text, want = HEAD, {e: {s: [] for s in SHELLS} for e in elements}
    last = None
    for k in range(count):
        e = elements[env.index(f"element{k}", len(elements))]
        s = shells[env.index(f"shell{k}", len(shells))]
        if e != last:
            text += "#BASIS SET: (20s,12p)\n"
        last = e
        z = number(env, w, f"z{k}", k % 2)
        c = w.num(f"c{k}")
        text += f"{e}    {s}\n  {z[0]:>20}           {c[0]}\n"
        want[e][s].append(z[1])
    text += tail
    asked = []
    opener(env, text, asked)
    f = env.mod("parse_ugbs").get_ugbs_exponents
    for e in elements:
        for name in dict.fromkeys((e, e.lower(), e.upper())):
            got = f(name)
            env.check(sorted(got) == sorted(SHELLS), "the shells S, P, D and F")
            for s in SHELLS:
                env.check(len(got[s]) == len(want[e][s]), "every exponent of the element and shell, no other")
                if len(got[s]) == len(want[e][s]):
                    env.eq(list(got[s]), want[e][s], f"exponents of {s} in file order")
    got = f("Zz")
    env.check(sorted(got) == sorted(SHELLS) and all(len(v) == 0 for v in got.values()), "an absent element gives empty lists")
    # what one call returned does not change what the next returns
    first = f(elements[0])
    for s in SHELLS:
        first[s].append(0.0)
    got = f(elements[0])
    env.check([len(got[s]) for s in SHELLS] == [len(want[elements[0]][s]) for s in SHELLS], "a call does not change the next")
    env.check(len(asked) > 0, "the shipped file is read")


def long(env, blocks):
    """a file of many elements: (element, shell, how many) in order."""
    env.fresh_modules()
    w = Writer(env)
    text, want, k, last = HEAD, {}, 0, None
    for e, s, m in blocks:
        for _ in range(m):
            if e != last:
                text += "#BASIS SET: (20s,12p)\n"
            last = e
            z, c = number(env, w, f"z{k}", k % 2), w.num(f"c{k}")
            k += 1
            text += f"{e}    {s}\n  {z[0]:>20}           {c[0]}\n"
            want.setdefault(e, {t: [] for t in SHELLS})[s].append(z[1])
    opener(env, text + "END\n", [])
    f = env.mod("parse_ugbs").get_ugbs_exponents
    for e in want:
        got = f(e)
        env.check(sorted(got) == sorted(SHELLS), "the shells S, P, D and F")
        for s in SHELLS:
            env.check(len(got[s]) == len(want[e][s]), f"{e} {s}: every exponent, no other")
            env.eq(list(got[s]), want[e][s], f"{e} {s}: exponents in file order")


def jobs(tier):
    T = tier == "thorough"
    out = []

    def add(elements, shells, count, tail=""):
        out.append(Job(listed, dict(elements=elements, shells=shells, count=count, tail=tail), concrete=6, max_paths=12000))

    add(["H", "He"], "S", 3)
    add(["H", "He"], "S", 4, "END\n")
    add(["C", "Ca"], "SP", 3)
    add(["B", "Be", "Bk"], "SP", 2)
    add(["Si", "S", "P"], "SPDF", 2, "END\n\n")
    add(["F", "Fe"], "SPDF", 2)
    add(["N", "I", "Na"], "SPDF", 1)
    add(["D", "Dy", "P"], "SD", 3)
    add(["P", "S"], "SPDF", 3)
    out.append(Job(long, dict(blocks=[(e, s, m) for e in ("H", "He", "C", "N", "Na", "S", "Si", "Ca", "Cs", "Xe", "Lr") for s, m in (("S", 6), ("P", 4), ("D", 2), ("F", 1))]), concrete=3))
    out.append(Job(long, dict(blocks=[("Xe", "S", 36), ("Xe", "P", 25), ("Xe", "D", 18), ("Rn", "S", 36), ("Rn", "P", 25), ("Rn", "D", 18), ("Rn", "F", 13)]), concrete=3))
    if T:
        add(["Si", "S", "P"], "SPDF", 3, "END\n\n")
        add(["F", "Fe"], "SPDF", 4)
        add(["H", "He"], "SP", 5)
        add(["Co", "C", "O", "Os"], "SPDF", 2)
    return out
