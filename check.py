#!/usr/bin/env python3
"""check.py <property>          run the check of a property
check.py replay <directory>  run a recorded violation again"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))


def main():
    what = sys.argv[1]
    if what == "setup":
        import engine
        return engine.setup()
    if what == "replay":
        import core
        return core.replay(sys.argv[2])
    n = int(what[1:])
    if n <= 16 or n == 22:
        import core
        return core.check(what)
    if n <= 20:
        import fifo
        return fifo.check(what)
    import accept
    return accept.check(what)


if __name__ == "__main__":
    sys.exit(main())
