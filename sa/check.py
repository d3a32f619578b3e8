"""python3 -m sa.check <property> [--tier quick|thorough]"""
import os
import sys

sys.setrecursionlimit(50000)
sys.dont_write_bytecode = True


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    pid = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    out = []

    def go():
        from . import registry, runner
        out.append(runner.run(pid, None, registry.function(pid), registry.META[pid], tier))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0] if out else 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
