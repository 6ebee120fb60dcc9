#!/usr/bin/env python3
"""C02: string utilities agree with their documented meaning."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, palmh


def main():
    ck = common.Check("C02", "one evaluation = one call (or one complete tokenization) of a string utility with random related arguments in exactly sized "
                      "heap blocks, result compared with an independent definition; distinct = different function and arguments")
    b = common.Build()
    exe, err = palmh.build(common.scratch(), b, "str")
    if not exe:
        ck.violation("does-not-compile", err)
        return ck.finish()
    palmh.explore(ck, exe, [], ck.n(400000, 12000000), 25000)
    return ck.finish(1000)


if __name__ == "__main__":
    common.main(main)
