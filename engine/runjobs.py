import sys, time, traceback, os
sys.path.insert(0, '/verif/engine')
import ir, vecspec
from sym import EngineError
mods={}
def run(job, d='/tmp/w'):
    if job.ename not in mods:
        mods[job.ename]=ir.parse(open('%s/%s.b.ll'%(d,job.ename)).read())
    cx=vecspec.Ctx(mods[job.ename], vecspec.ELEMS[job.ename], job.title())
    t=time.time()
    err=None
    try:
        job.fn(cx, job.kinds)
    except EngineError as e:
        err=str(e)
    except Exception as e:
        err='EXC '+traceback.format_exc()
    return cx, err, time.time()-t
if __name__=='__main__':
    el=sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1]!='-' else None
    ops=sys.argv[2].split(',') if len(sys.argv)>2 else None
    from concurrent.futures import ProcessPoolExecutor
    js=vecspec.jobs(el,ops)
    tot=0
    def one(i):
        cx,err,t=run(js[i])
        bad=[(o.name,o.cat,o.status,o.model,o.where) for o in cx.eng.obs if o.status!='ok']
        return i,len(cx.eng.obs),bad,err,t,cx.eng.paths
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        for i,n,bad,err,t,paths in pool.imap_unordered(one, range(len(js))):
            print('%-50s %4d obs %3d paths %6.1fs %s'%(js[i].title(),n,paths,t,'' if not bad and not err else 'BAD'))
            if err: print('    ERR',err)
            for b in bad[:6]: print('    ',b)
            tot+=n
    print(tot)
