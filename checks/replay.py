#!/opt/venv/bin/python
"""replay.py <replay file>: re-run what a VIOLATION line reported, on /repo's current tree. Exit 1 if it fails again."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    d = json.load(open(sys.argv[1]))
    if d['kind'] == 'bounded':
        from checks.run import load_families
        load_families()
        from harness import engine
        r = engine.rerun_alone(d['property'], d['family'], d['i'], d['seed'], d.get('history') or [])
        print(json.dumps(r, indent=1))
        sys.exit(1 if r.get('status') == 'fail' else 0)
    from contracts import driver
    sys.exit(driver.replay(d))


if __name__ == '__main__':
    main()
