"""Replays scenarios generated from the specification into the real code and
records what happened, one JSON line per scenario."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    src, dst, shard, nshard = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import handlers
    with open(src) as f, open(dst, "w") as g:
        for k, line in enumerate(f):
            if k % nshard != shard:
                continue
            rec = json.loads(line)
            try:
                out = handlers.run(json.loads(line))
            except Exception as ex:  # noqa: BLE001 - what the real code raises is an observation
                out = dict(rec, crash=type(ex).__name__ + ": " + str(ex)[:300])
            g.write(json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
