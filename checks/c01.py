#!/usr/bin/env python3
"""C01: hash tables behave as finite maps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, palmh


def main():
    ck = common.Check("C01", "one evaluation = one random history of operations (8 to 4000) on up to five tables that are copies of each other, "
                      "each result and afterwards the whole content compared with a finite map; distinct = different operation sequence")
    b = common.Build()
    exe, err = palmh.build(common.scratch(), b, "ht")
    if not exe:
        ck.violation("does-not-compile", err)
        return ck.finish()
    palmh.explore(ck, exe, [], ck.n(8000, 240000), 500)
    return ck.finish(1000)


if __name__ == "__main__":
    common.main(main)
