#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

GROUPS = {
    'router': ['C01', 'C04', 'C05', 'C06'],
    'routerconc': ['C07'],
    'pattern': ['C02', 'C03'],
    'dispatch': ['C11', 'C12', 'C13'],
    'mstack': ['C08', 'C09', 'C10'],
    'response': ['C14', 'C15', 'C16', 'C18'],
    'std': ['C17', 'C19'],
    'graceful': ['C25', 'C26', 'C27'],
    'http': ['C28', 'C29'],
    'tls': ['C34'],
    'top': ['C33'],
    'bind': ['C30', 'C31', 'C32'],
    'listener': ['C20', 'C21', 'C22', 'C23', 'C24'],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier')
    ap.add_argument('--seed')
    ap.add_argument('--replay')
    a = ap.parse_args()
    group = next((g for g, ids in GROUPS.items() if a.pid in ids), None)
    if group is None:
        print('unknown property', a.pid)
        return 2
    try:
        mod = importlib.import_module('groups.' + group)
        ck = vlib.Check(a.pid, a.tier, a.seed)
        if a.replay:
            return mod.replay(ck, a.replay)
        level = mod.run(ck) or 'model_checking'
        return ck.finish(level)
    except vlib.CheckError as e:
        print('CHECK-ERROR', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
