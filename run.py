#!/opt/venv/bin/python
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--worker':
        import json
        cfg = json.load(open(sys.argv[2]))
        from vp import core
        if cfg.get('replay'):
            core.replay_worker(cfg)
        core.worker_main(sys.argv[2])
    from vp import core
    sys.exit(core.main(sys.argv[1:]))
