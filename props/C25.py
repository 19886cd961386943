"""C25: Slater wave-function files are read faithfully."""
import io

from vf.engine import Job

FUNCTIONS = ["_slater.load_slater_wfn", "_slater._get_number_of_electrons_per_orbital", "_slater._get_column", "_slater._configuration_exact_for_heavy_elements", "density.SlaterAtoms.__init__ and its properties"]
BOUNDS = {"layout": "neutral, anion, cation and heavy-element files; 1 to 4 blocks of 1 to 7 orbitals and 1 to 3 (4) basis functions; blank lines where shipped files have them; trailing blanks",
          "numbers": "every energy, cusp, exponent and coefficient any real, with or without sign; every occupation of one or two chosen subshells (1 to its capacity) explored",
          "configurations": "explicit, K, L, M, N, [XE], [RN], subshells with zero electrons"}
ASSUMPTIONS = ["files are the stand-in's text, opened with the built-in open", "numbers stand in their columns separated by blanks as in the shipped files; a block's orbitals are consecutive and start with the lowest"]

ANION = "ag al as b br c cl co cr cu f fe ga ge h i in k li mn mo n na nb ni o p pd rb rh ru s sb sc se si sn tc te ti v y zr".split()
CATION = "ag al ar as b be br c ca cd cl co cr cs cu f fe ga ge i in k kr li mg mn mo n na nb ne ni o p pd rb rh ru s sb sc se si sn sr tc te ti v xe y zn zr".split()
HEAVY = "cs ba la ce pr nd pm sm eu gd tb dy ho er tm yb lu hf ta w re os ir pt au hg tl pb bi po at rn fr ra ac th pa u np pu am cm bk cf es fm md no lr".split()
LIGHT = "h he li be b c n o f ne na mg al si p s cl ar k ca sc ti v cr mn fe co ni cu zn ga ge as se br kr rb sr y zr nb mo tc ru rh pd ag cd in sn sb te i xe".split()
FIRST = {"S": 1, "P": 2, "D": 3, "F": 4}
CAP = {"S": 2, "P": 6, "D": 10, "F": 14}
SHELL = {"K": {"1S": 2}, "L": {"2S": 2, "2P": 6}, "M": {"3S": 2, "3P": 6, "3D": 10}, "N": {"4S": 2, "4P": 6, "4D": 10, "4F": 14}}
XE = {**SHELL["K"], **SHELL["L"], **SHELL["M"], "4S": 2, "4P": 6, "5S": 2, "4D": 10, "5P": 6}
RN = {**XE, "4F": 14, "6S": 2, "5D": 10, "6P": 6}


class Writer:
    """number tokens: the text of a value in concrete runs, a unique placeholder bound to a symbol in symbolic runs."""

    def __init__(self, env):
        self.env, self.bound, self.count = env, {}, 0
        self.prefix = ""
        if env.symbolic:
            env.hook("float_str", self.find)

    def find(self, text):
        return self.bound.get(text.strip().lstrip("=").strip())

    def num(self, name, digits=7, positive=False):
        """(text, value)"""
        self.count += 1
        name = self.prefix + name
        k = dict(sample=(0.1 if positive else -30000, 30000)) if digits == 9 else {}
        v = self.env.pos(name, **k) if positive else self.env.real(name, **k)
        if not self.env.symbolic:
            text = f"{v:.{digits}f}"
            if positive and float(text) == 0:
                text = f"{0.5:.{digits}f}"
            self.env.used[name] = float(text)
            return text, float(text)
        sign = "-" if not positive and self.count % 3 == 0 else ""
        text = f"{sign}{self.count + (15000 if digits == 9 else 0)}.{self.count:0{digits}d}"
        self.bound[text] = v
        return text, v


def configuration(env, style, want, free):
    """(text of the file's configuration, expected configuration, electrons per subshell)"""
    occ = {}
    text = {"plain": "", "K": "K(2)", "KL": "K(2)L(8)", "KLM": "K(2)L(8)M(18)", "KLMN": "K(2)L(8)M(18)N(32)", "[XE]": "[XE]", "[RN]": "[RN]"}[style]
    for k, v in {"plain": {}, "K": SHELL["K"], "KL": {**SHELL["K"], **SHELL["L"]}, "KLM": {**SHELL["K"], **SHELL["L"], **SHELL["M"]},
                 "KLMN": {**SHELL["K"], **SHELL["L"], **SHELL["M"], **SHELL["N"]}, "[XE]": XE, "[RN]": RN}[style].items():
        occ[k] = v
    full = {"[XE]": "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)", "[RN]": "K(2)L(8)M(18)4S(2)4P(6)5S(2)4D(10)5P(6)4F(14)6S(2)5D(10)6P(6)"}.get(style, text)
    tail = ""
    for sub in want:
        sub, _, fixed = sub.partition("=")
        if fixed:
            n = int(fixed)
        elif sub in free:
            n = 1 + env.index("occ" + sub, CAP[sub[1]])
        else:
            n = CAP[sub[1]]
        tail += f"{sub}({n})"
        occ[sub] = n
    return text + tail, full + tail, {k: n for k, n in occ.items() if n}


def build(env, w, name, conf, occ, sizes, heavy, blanks=0, gap=0, trail=""):
    """text of the file and what it says."""
    L = [f"      {name}   {conf}, 1S{trail}"] + [""] * blanks
    if heavy:
        L += ["      CHARGE = 55.000000", "      SYMMETRY SPECIES               S     P     D", "      NUMBER OF BASIS FUNCTIONS     13    10     7",
              "      NUMBER OF CLOSED SHELLS        5     4     2", "      NUMBER OF OPEN SHELLS          1     0     0", "      OPEN SHELL OCCUPATION NUMBER   1     0     5"]
    e, t, v, q = w.num("E", 9), w.num("T", 9, True), w.num("V", 9), w.num("VT", 9)
    L.append(f"   E ={e[0]:>16}")
    L.append(f"   T = {t[0]:>15}     V ={v[0]:>16}     V/T ={q[0]:>16}")
    L += [""] * gap
    L.append("  ORBITAL ENERGIES AND EXPANSION COEFFICIENTS")
    exp = dict(energy=e[1], kinetic_energy=t[1], potential_energy=v[1], orbitals=[], orbitals_energy=[], orbitals_cusp=[], orbitals_basis={}, basis_numbers={}, orbitals_exp={}, orbitals_coeff={})
    for sub, (numbers) in sizes:
        orbs = [o for o in (f"{n}{sub}" for n in range(FIRST[sub], 8)) if o in occ]
        L.append(f"        {sub}         " + "".join(f"{o:>15}" for o in orbs) + trail)
        en = [w.num(f"en{o}") for o in orbs]
        L.append("  BASIS/ORB.ENERGY" + "".join(f"{x[0]:>15}" for x in en))
        exp["orbitals"] += orbs
        exp["orbitals_energy"] += [x[1] for x in en]
        if not heavy:
            cu = [w.num(f"cu{o}") for o in orbs]
            L.append("              CUSP" + "".join(f"{x[0]:>15}" for x in cu))
            exp["orbitals_cusp"] += [x[1] for x in cu]
        exp["orbitals_basis"][sub] = [f"{n}{sub}" for n in numbers]
        exp["basis_numbers"][sub] = list(numbers)
        exp["orbitals_exp"][sub] = []
        for o in orbs:
            exp["orbitals_coeff"][o] = []
        for k, n in enumerate(numbers):
            z = w.num(f"z{sub}{k}", 6, True)
            row = [w.num(f"c{o}_{k}") for o in orbs]
            L.append(f"  {n}{sub} {z[0]:>15}" + "".join(f"{x[0]:>15}" for x in row) + trail)
            exp["orbitals_exp"][sub].append(z[1])
            for o, x in zip(orbs, row):
                exp["orbitals_coeff"][o].append(x[1])
    return "\n".join(L) + "\n", exp


def opener(env, text, asked):
    def fake(path, mode="r", *a, **k):
        path = str(path)
        if "/data/" not in path.replace("\\", "/"):
            raise FileNotFoundError(path)
        asked.append(path.replace("\\", "/"))
        return io.StringIO(text)
    env.hook("open", fake)


def column(env, got, want, label):
    env.check(tuple(got.shape) == (len(want), 1), f"{label}: one row each")
    if tuple(got.shape) == (len(want), 1):
        env.eq([got[i, 0] for i in range(len(want))], want, label)


def read(env, element, state, style, want, free, sizes, blanks=0, gap=0, trail="", through="loader"):
    env.fresh_modules()
    w = Writer(env)
    heavy = element.lower() in HEAVY and state == "neutral"
    conf, shown, occ = configuration(env, style, want, free)
    text, exp = build(env, w, "SOMETHING" + {"neutral": "", "anion": "-", "cation": "+"}[state], conf, occ, sizes, heavy, blanks, gap, trail)
    asked = []
    opener(env, text, asked)
    kw = dict(anion=state == "anion", cation=state == "cation")
    if through == "loader":
        d = env.mod("_slater").load_slater_wfn(element, **kw)
        get = d.__getitem__
    else:
        d = env.mod("density").SlaterAtoms(element, **kw)
        get = lambda k: getattr(d, k)
    ext = {"neutral": "slater", "anion": "an", "cation": "cat"}[state]
    env.check(len(asked) >= 1 and all(p.endswith(f"/data/{state}/{element.lower()}.{ext}") for p in asked), "the file of the element and charge state is read")
    env.check(get("configuration") == shown, "configuration")
    for k in ("energy", "kinetic_energy", "potential_energy"):
        env.eq(get(k), exp[k], k)
    env.check(list(get("orbitals")) == exp["orbitals"], "orbitals in file order")
    if list(get("orbitals")) != exp["orbitals"]:
        return
    column(env, get("orbitals_energy"), exp["orbitals_energy"], "orbital energies")
    if heavy:
        env.check(len(get("orbitals_cusp")) == 0, "no cusps")
    else:
        column(env, get("orbitals_cusp"), exp["orbitals_cusp"], "cusps")
    env.check(sorted(get("orbitals_exp")) == sorted(exp["orbitals_exp"]), "types of basis functions")
    env.check({k: list(v) for k, v in get("orbitals_basis").items() if len(v)} == exp["orbitals_basis"], "basis functions in file order")
    for s in exp["orbitals_exp"]:
        column(env, get("orbitals_exp")[s], exp["orbitals_exp"][s], f"exponents of {s}")
        env.check([int(x) for x in get("basis_numbers")[s][:, 0]] == exp["basis_numbers"][s], f"principal numbers of {s}")
    env.check(sorted(get("orbitals_coeff")) == sorted(exp["orbitals_coeff"]), "orbitals with coefficients")
    for o in exp["orbitals_coeff"]:
        column(env, get("orbitals_coeff")[o], exp["orbitals_coeff"][o], f"coefficients of {o}")
    n = get("orbitals_occupation")
    env.check(tuple(n.shape) == (len(exp["orbitals"]), 1) and [int(x) for x in n[:, 0]] == [occ[o] for o in exp["orbitals"]], "electrons of every orbital")


def states(env, pool):
    """charge states with data are read, others refused, whatever the case of the name."""
    names = {"light": LIGHT, "heavy": HEAVY}[pool]
    el = names[env.index("element", len(names))]
    name = el.capitalize() if env.flag("capital") else (el.upper() if env.flag("upper") else el)
    state = ("neutral", "anion", "cation")[env.index("state", 3)]
    if (el, state) == ("cs", "cation"):
        return      # has a harness of its own
    heavy = pool == "heavy" and state == "neutral"
    env.fresh_modules()
    w = Writer(env)
    conf, _, occ = configuration(env, "[XE]" if heavy else "plain", ["6S=1"] if heavy else ["1S=1"], ())
    text, exp = build(env, w, "SOMETHING", conf, occ, [("S", [1])], heavy)
    asked = []
    opener(env, text, asked)
    ok = {"neutral": LIGHT + HEAVY, "anion": ANION, "cation": CATION}[state]
    f = env.mod("_slater").load_slater_wfn
    kw = dict(anion=state == "anion", cation=state == "cation")
    if el in ok:
        # a heavy atom's configuration names more orbitals than this file has
        d, exc = env.attempt(f, name, **kw)
        env.check(exc is None and len(asked) == 1, "read")
        if exc is None:
            env.eq(d["energy"], exp["energy"], "energy")
            env.check(asked[0].endswith(f"/data/{state}/{el}." + {"neutral": "slater", "anion": "an", "cation": "cat"}[state]), "the file of the element and charge state")
    else:
        env.check(env.raises(ValueError, f, name, **kw) and not asked, "refused")


def refusals(env):
    A = env.mod("density").SlaterAtoms
    opener(env, "", [])
    env.check(env.raises(ValueError, A, "c", anion=True, cation=True), "both charge states refused")
    for bad in ("c1", "", 6, None, "c+"):
        env.check(env.raises(TypeError, A, bad), "names must be letters")


def cesium_cation(env):
    w = Writer(env)
    conf, _, occ = configuration(env, "KLM", ["4S", "4P", "5S", "4D", "5P"], ())
    text, exp = build(env, w, "CESIUM+", conf, occ, [("S", [1, 2]), ("P", [2]), ("D", [3])], False, blanks=3, gap=1)
    opener(env, text, [])
    d, exc = env.attempt(env.mod("_slater").load_slater_wfn, "Cs", cation=True)
    env.check(exc is None, "the cesium cation, listed as available, is read")
    if exc is None:
        env.eq(d["energy"], exp["energy"], "energy")


def jobs(tier):
    T = tier == "thorough"
    out = []

    def add(element, state, style, want, free, sizes, **k):
        out.append(Job(read, dict(element=element, state=state, style=style, want=want, free=free, sizes=sizes, **k), concrete=k.pop("concrete", 6), max_paths=4000))

    big = [3, 1, 2] + ([2] if T else [])
    add("h", "neutral", "plain", ["1S"], ["1S"], [("S", [1])])
    add("Be", "neutral", "plain", ["1S", "2S"], ["1S", "2S"], [("S", [1, 2])], through="atom")
    add("c", "neutral", "plain", ["1S", "2S", "2P"], ["2P"], [("S", [1, 1, 2]), ("P", [2, 3])])
    add("C", "cation", "plain", ["1S", "2S", "2P"], ["2S", "2P"], [("S", [1, 2]), ("P", [2])], blanks=4, gap=1, trail="   ", through="atom")
    add("c", "anion", "plain", ["1S", "2S", "2P"], ["2P"], [("S", [1, 2]), ("P", big)], blanks=1)
    add("n", "neutral", "plain", ["1S", "2S", "2P", "3S", "3P"], ["3S", "3P"], [("S", [1, 2]), ("P", [2, 2])])
    add("Al", "anion", "KL", ["3S", "3P"], ["3S", "3P"], [("S", big), ("P", [2, 3])], gap=1)
    add("mn", "neutral", "KL", ["3S", "3P", "4S", "3D"], ["4S", "3D"], [("S", [1, 4]), ("P", [2]), ("D", big)], trail="    ")
    add("CO", "cation", "KL", ["3S", "3P", "4S=0", "3D"], ["3D"], [("S", [1, 2]), ("P", [2]), ("D", [3])], blanks=4, gap=1)
    add("ga", "neutral", "KLM", ["4S", "4P"], ["4S", "4P"], [("S", [1, 2]), ("P", [2]), ("D", [3])], through="atom")
    add("ag", "neutral", "KLM", ["4S", "4P", "5S", "4D"], ["5S", "4D"], [("S", [4, 1, 3]), ("P", [3]), ("D", [3, 4])])
    add("Xe", "cation", "KLM", ["4S", "4P", "5S", "4D", "5P"], ["5P"], [("S", [1]), ("P", [2]), ("D", [3])], blanks=4, gap=1)
    add("zr", "anion", "KLM", ["4S", "4P", "5S", "4D", "5P=0"], ["4D"], [("S", [1]), ("P", [2]), ("D", big)])
    add("na", "neutral", "K", ["2S", "2P", "3S"], ["3S"], [("S", [1, 3]), ("P", [2])])
    add("sn", "neutral", "KLMN", ["5S", "5P"], ["5P"], [("S", [1]), ("P", [2]), ("D", [3]), ("F", [4])])
    add("cs", "neutral", "[XE]", ["6S"], ["6S"], [("S", big), ("P", [2, 3]), ("D", [3])])
    add("CE", "neutral", "[XE]", ["6S", "5D", "4F"], ["5D", "4F"], [("S", [1]), ("P", [2]), ("D", [3]), ("F", [4, 4])], trail="     ", through="atom")
    add("rn", "neutral", "[XE]", ["4F", "6S", "5D", "6P"], ["6P"], [("S", [1]), ("P", [2, 3]), ("D", [3]), ("F", [4])])
    add("lr", "neutral", "[RN]", ["7S", "6D", "5F"], ["6D", "5F"], [("S", [1, 2]), ("P", [2]), ("D", [3, 4]), ("F", [4, 5])])
    add("ra", "neutral", "[RN]", ["7S"], ["7S"], [("S", [1]), ("P", [2]), ("D", [3]), ("F", [4])], through="atom")
    add("lr", "neutral", "[RN]", ["7S", "5F", "7P"], ["7P"], [("S", [1, 2]), ("P", [2, 3]), ("D", [3]), ("F", [4])])
    add("no", "neutral", "[RN]", ["7S", "5F", "6F"], ["6F"], [("S", [1, 2]), ("P", [2]), ("D", [3]), ("F", [4, 6])])
    if T:
        add("es", "neutral", "[RN]", ["7S", "5F"], ["7S", "5F"], [("S", [1, 2, 3, 4]), ("P", [2, 3, 4]), ("D", [3, 4]), ("F", [4, 5, 6])])
        add("te", "anion", "KLM", ["4S", "4P", "5S", "4D", "5P"], ["5S", "4D", "5P"], [("S", [1, 2, 3]), ("P", [2, 3]), ("D", [3])])
        add("pb", "neutral", "[XE]", ["4F", "6S", "5D", "6P"], ["4F", "6P"], [("S", [1, 2]), ("P", [2, 3]), ("D", [3, 4]), ("F", [4, 5])])
    for pool in ("light", "heavy"):
        out.append(Job(states, dict(pool=pool), concrete=12, max_paths=4000))
    out.append(Job(refusals, {}, concrete=1))
    out.append(Job(cesium_cation, {}, concrete=1))
    return out
