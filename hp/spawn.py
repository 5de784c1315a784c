"""Import for its effect: no process is started while a thread has a copied script open for writing (the child would
hold it open until it executes something, and running the script meanwhile fails with ETXTBSY)."""
import os, shutil, subprocess, sys, threading, traceback
LOCK = threading.RLock()
_init, _copy = subprocess.Popen.__init__, shutil.copyfile
def init(self, *a, **k):
    with LOCK: _init(self, *a, **k)
def copyfile(*a, **k):
    with LOCK: return _copy(*a, **k)
subprocess.Popen.__init__ = init
shutil.copyfile = copyfile
def hook(t, v, tb):
    traceback.print_exception(t, v, tb); sys.stderr.flush(); os._exit(3)
sys.excepthook = hook
