"""Worker process: jobs as JSON lines on stdin, results as JSON lines on stdout."""
import json
import os
import sys


def main():
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    from sim.runtime import Runtime

    if "--peer" in sys.argv:
        from sim import peer

        peer.start()
    rt = Runtime(cold="--cold" in sys.argv)
    if "--cold" not in sys.argv:
        rt.preload()
    try:
        proto.write(json.dumps({"ready": True}) + "\n")
        for line in sys.stdin:
            job = json.loads(line)
            if job.get("quit"):
                break
            proto.write(json.dumps(rt.run(job), default=repr) + "\n")
    finally:
        rt.close()


if __name__ == "__main__":
    main()
