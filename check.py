#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
import threading
from engine.check import main

if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    res = [2]

    def go():
        res[0] = main(sys.argv[1:])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
