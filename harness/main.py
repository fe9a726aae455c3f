import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def innermost_in_repo(text):
    """one of the tracebacks (a worker's, or this process') ends in the code under test"""
    import re

    for tb in text.split("Traceback (most recent call last)")[1:]:
        files = re.findall(r'File "([^"]+)"', tb)
        if files and any(f.startswith(lib.REPO + "/causy/") for f in files):
            ours = max((i for i, f in enumerate(files) if f.startswith(lib.ROOT + "/")), default=-1)
            theirs = max((i for i, f in enumerate(files) if f.startswith(lib.REPO + "/causy/")), default=-1)
            if theirs > ours:
                return True
    return False


def main():
    pid = sys.argv[1]
    mods = {}
    here = os.path.dirname(os.path.abspath(__file__))
    name = [f[:-3] for f in sorted(os.listdir(here)) if f.lower().startswith("c" + pid[1:] + "_") and f.endswith(".py")]
    if len(name) != 1:
        print("unknown property", pid)
        return 2
    try:
        lib.setup_causy()
        mod = importlib.import_module(name[0])
        return mod.run()
    except lib.MachineryError as e:
        print("ERROR", e)
        return 2
    except Exception:
        text = traceback.format_exc()
        print(text, file=sys.stderr)
        if innermost_in_repo(text):
            # the code under test failed where the drivers rely on it
            path = os.path.join(lib.ROOT, "build", pid, "violation.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
