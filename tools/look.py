import sys; sys.path.insert(0,'/verif')
import threading, os
os.environ['VERIF_DEBUG']=os.environ.get('VERIF_DEBUG','')
sys.setrecursionlimit(20000); threading.stack_size(512*1024*1024)
from engine.check import *
from checks.util import *
def main():
    c=Check('T','quick')
    def show_spec(it,a,out):
        print('--', out, '|', [str(e)[:150] for e in it.ctx.trace][:12], '|', c.describe(it.ctx)[:300])
    for f in sys.argv[1:]:
        c.product(f, f, show_spec, limit=300)
    for v in c.violations.values(): print(v['key'], str(v['detail'])[:400])
t=threading.Thread(target=main); t.start(); t.join()
