import sys
from . import runner, build


def load(pid):
    from .checks import ALL
    return ALL[pid]()


if __name__ == "__main__":
    if len(sys.argv) < 2:
        from .checks import ALL
        print("usage: python3 -m dst ID [--replay FILE] [--n N]   ids: %s" % " ".join(ALL))
        sys.exit(2)
    if sys.argv[1] == "setup":
        build.build("marcsim")
        sys.exit(0)
    try:
        sys.exit(runner.main(load(sys.argv[1]), sys.argv[2:]))
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e, file=sys.stderr)
        sys.exit(2)
