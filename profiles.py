"""What each check runs: TLC jobs (exhaustive: gen=bfs, random: gen=sim) and
which fields of the answers of the calls inside a history are compared (the
answers of the probes at its end are compared completely)."""

def bfs(pool, depth, parts=1, **kw): return dict(gen="bfs", pool=pool, depth=depth, parts=parts, **kw)
def sim(pool, depth, num, runs=1, **kw): return dict(gen="sim", pool=pool, depth=depth, num=num, runs=runs, **kw)

def sims(depth, num, runs=1, pools=(91, 92, 93, 94), **kw):
    return [sim(p, depth, num, runs, **kw) for p in pools]

CHECKS = {
 "C01": dict(only="old,f,v,cb",
     quick=[bfs(1, 4), bfs(2, 4), bfs(3, 4), bfs(4, 4), bfs(11, 3), bfs(22, 3), bfs(33, 3), bfs(44, 3)] + sims(30, 150),
     thorough=[bfs(p, 5, 2) for p in (1, 2, 3, 4)] + [bfs(s + p, 4, 2) for s in (10, 20, 30) for p in (1, 2, 3, 4)] + sims(60, 2000, 2)),
 "C02": dict(only="f,v,b,e,key,cb",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 3), bfs(23, 3), bfs(24, 3)] + sims(25, 150),
     thorough=[bfs(p, 4, 2) for p in (1, 2, 3, 4, 11, 12, 13, 14, 21, 22, 23, 24)] + sims(60, 1500, 2)),
 "C03": dict(only="ok,f",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 2), bfs(12, 2), bfs(23, 2), bfs(24, 2)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + [bfs(p, 3, 2) for p in (11, 12, 13, 14, 21, 22, 23, 24)] + sims(60, 1500, 2)),
 "C04": dict(only="nil,m",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 2), bfs(12, 2), bfs(23, 2), bfs(24, 2)] + sims(20, 150),
     thorough=[bfs(p, 4, 2) for p in (1, 2, 3, 4)] + [bfs(p, 3, 2) for p in (11, 12, 13, 14, 21, 22, 23, 24)] + sims(50, 1000, 2)),
 "C05": dict(only="old,ok,p,dl,md,f,v,d,c,t,nil,m,b,e,key",
     quick=[bfs(1, 2), bfs(2, 2), bfs(3, 2), bfs(4, 2), bfs(11, 2), bfs(12, 2), bfs(13, 2), bfs(14, 2)] + sims(25, 150),
     thorough=[bfs(p, 3, 4) for p in (1, 2, 3, 4, 11, 12, 13, 14)] + sims(50, 1500, 2)),
 "C06": dict(only="p,dl,md,f,v,m,old",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 3), bfs(13, 3), bfs(14, 3)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + [bfs(p, 4, 4) for p in (11, 22)] + sims(50, 1500, 2)),
 "C07": dict(only="ok,f,d,c,t",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 3), bfs(13, 3), bfs(24, 3)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4, 11, 12, 13, 14)] + sims(50, 1500, 2)),
 "C08": dict(only="m,nil",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 3), bfs(13, 3), bfs(24, 3)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4, 11, 12)] + sims(50, 1500, 2)),
 "C09": dict(only="err,wr,nil,m",
     quick=[bfs(1, 2), bfs(2, 2), bfs(3, 2), bfs(4, 2), bfs(5, 2), bfs(6, 2)] + sims(12, 150),
     thorough=[bfs(p, 3, 4) for p in (1, 2, 3, 4, 5, 6)] + sims(25, 1500, 2)),
 "C10": dict(only="err,n,m",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3)] + sims(18, 100),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + sims(30, 1000, 2)),
 "C11": dict(only="ev",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 2), bfs(12, 2), bfs(13, 2), bfs(14, 2)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + [bfs(p, 3) for p in (11, 12, 13, 14)] + sims(50, 1500, 2)),
 "C12": dict(only="ok,cb,m", bubble=True,
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3)] + sims(25, 100),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + sims(50, 1000, 2)),
 "C14": dict(only="f,v,b,e,key,cb,p,dl,md",
     quick=[bfs(1, 2), bfs(2, 2), bfs(11, 2), bfs(12, 2)] + sims(20, 100),
     thorough=[bfs(p, 3, 2) for p in (1, 2, 11, 12)] + sims(40, 1000, 2)),
 "C15": dict(only="f,v,b,e,nil,m,p,dl,old,ok",
     quick=[bfs(5, 3), bfs(6, 3), bfs(7, 3), bfs(8, 3), bfs(15, 2), bfs(16, 2), bfs(17, 2), bfs(18, 2)] + sims(20, 150, pools=(95, 96, 97, 98)),
     thorough=[bfs(p, 4, 4) for p in (5, 6, 7, 8)] + [bfs(p, 3) for p in (15, 16, 17, 18)] + sims(40, 1000, 2, pools=(95, 96, 97, 98))),
 "C17": dict(only="err,wr,src,m",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3)] + sims(20, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + sims(40, 1000, 2)),
 "C18": dict(only="old,cb",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 3), bfs(13, 3), bfs(24, 3)] + sims(25, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4, 11, 12)] + sims(50, 1500, 2)),
 "C19": dict(only="key,v,d,c,t,m",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3), bfs(11, 3), bfs(12, 2), bfs(13, 2), bfs(24, 2)] + sims(30, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + [bfs(p, 4, 4) for p in (11, 12)] + sims(60, 1500, 2)),
 "C20": dict(only="err,wr,ran,f,m",
     quick=[bfs(1, 3), bfs(2, 3), bfs(3, 3), bfs(4, 3)] + sims(20, 150),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4)] + sims(40, 1000, 2)),
 "C13": dict(only="old",
     quick=[bfs(1, 4), bfs(2, 4), bfs(3, 4), bfs(4, 4), bfs(11, 3), bfs(12, 3), bfs(13, 3)] + sims(15, 150),
     thorough=[bfs(p, 5, 2) for p in (1, 2, 3, 4)] + [bfs(p, 4, 2) for p in (11, 12, 13)] + sims(30, 2000, 2)),
 "C16": dict(only="v,e",
     quick=[bfs(1, 1), bfs(2, 1), bfs(3, 2, 4)] + sims(15, 100),
     thorough=[bfs(1, 2, 4), bfs(2, 2, 4), bfs(3, 2)] + sims(30, 1000, 2)),
 "C21": dict(only="n,m,v,f,err,wr", serial=True,
     quick=[bfs(1, 1), bfs(2, 1), bfs(3, 2), bfs(4, 2)] + sims(8, 100),
     thorough=[bfs(1, 2, 8), bfs(2, 2, 8), bfs(3, 3), bfs(4, 3)] + sims(12, 1000, 2)),
 "C22": dict(only="v,e",
     quick=[bfs(1, 1), bfs(2, 1), bfs(3, 1), bfs(4, 2)] + sims(15, 150),
     thorough=[bfs(1, 1), bfs(2, 1), bfs(3, 1), bfs(4, 3)] + sims(30, 2000, 2)),
 "C23": dict(only="e,m", serial=True,
     quick=[bfs(1, 2), bfs(2, 2), bfs(3, 2), bfs(4, 2), bfs(5, 2), bfs(6, 2), bfs(11, 2), bfs(12, 2), bfs(13, 2), bfs(14, 2)] + sims(20, 100, pools=(91, 92, 93, 95)),
     thorough=[bfs(p, 3, 4) for p in (1, 2, 3, 4, 5, 6, 11, 12, 13, 14)] + sims(40, 1000, 2, pools=(91, 92, 93, 95, 96))),
 "C24": dict(only="err,wr,m,st",
     quick=[bfs(p, 3) for p in (1, 2, 3, 4, 5, 6)] + [bfs(p, 2) for p in (11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26)] + sims(20, 100, pools=(91, 93)),
     thorough=[bfs(p, 4, 4) for p in (1, 2, 3, 4, 5, 6)] + [bfs(p, 3) for p in (11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26)] + sims(40, 1000, 4, pools=(91, 93))),
}

# long executions recorded from the real code and validated against the specification: files, executions in each, calls in each
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20"):
    CHECKS[_p]["trace"] = dict(quick=(8, 10, 400), thorough=(32, 60, 1000))
