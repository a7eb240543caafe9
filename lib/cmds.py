"""Random command lines of the tool."""
import os


def tables_filter(rng, names):
    k = rng.random()
    if k < .4 or not names:
        return "*"
    if k < .7:
        return rng.choice([",", ";", " "]).join(rng.sample(names, min(len(names), rng.randint(1, 3))))
    return rng.choice(["_*", "C*", "*0", "c?nfig*", "*e*"])


def random_commands(rng, o, names, n=None, kinds=None, importdir=None, mkdirs=True):
    """list of commands (argument lists); their output goes below the directory o"""
    out = []
    kinds = kinds or ["eax", "ex", "ddc", "dc", "dvc", "dac", "drc", "dpc", "eb", "slo", "sts"] + (["ib"] if importdir else [])
    for i in range(n or rng.choice([1, 1, 2, 3, 6])):
        k = rng.choice(kinds)
        d = os.path.join(o, "%s%d" % (k, i))
        if k in ("eax", "ex", "dvc", "dac", "eb", "slo", "ddc", "dc", "drc") and mkdirs:
            os.makedirs(d, exist_ok=True)
        if k == "eax":
            c = ["-eax", d]
        elif k == "ex":
            c = ["-ex", d, tables_filter(rng, names)]
        elif k in ("ddc", "dc"):
            c = ["-" + k, d if rng.random() < .5 else os.path.join(o, "%s%d.cf" % (k, i))]
        elif k in ("dvc", "dac", "slo"):
            c = ["-" + k, d]
        elif k == "drc":
            c = ["-drc", str(rng.choice([0, -1, 1, 2, -2, 99])), d if rng.random() < .5 else os.path.join(o, "drc%d.cf" % i)]
        elif k == "dpc":
            c = ["-dpc", rng.choice(["0", "1", "1:2", "-1:0", "1:0", "2:1", "7:9"]), d]
        elif k == "eb":
            c = ["-eb", d, tables_filter(rng, names)]
        elif k == "sts":
            c = ["-sts", os.path.join(o, "sts%d.txt" % i)]
        elif k == "ib":
            c = ["-ib", importdir, tables_filter(rng, names)]
        out.append(c)
    if rng.random() < .3:
        out.append(["-bf", rng.choice(["yes", "no", "1", "0"])])
    if rng.random() < .3:
        out.append(["-pb", rng.choice(["yes", "no", "1", "0"])])
    rng.shuffle(out)
    return out
