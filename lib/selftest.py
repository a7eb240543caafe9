"""Self test of the framework: the independent writer and the independent reader agree with each other and the tools
needed are present.  Does not look at the code under test."""
import random
import shutil
import sys

import db1cd
import gen


def main():
    for tool in ("clang++", "gcc", "llvm-symbolizer-18"):
        if not shutil.which(tool):
            print("missing tool: " + tool)
            return 1
    for seed in range(6):
        rng = random.Random(seed)
        db = gen.database(rng)
        for i in range(3):
            db.add(gen.table(rng, "_T%d" % i))
        data = db.build()
        r = db1cd.Reader(data)
        names = sorted(t.name for t in db.tables)
        got = sorted(r.tables)
        if names != got:
            print("self test failed: %r != %r" % (names, got))
            return 1
    print("self test passed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
