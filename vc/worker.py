"""Discharges one share of the obligations of one function under contract.  Prints one JSON line."""
import sys,json,time,traceback,importlib,pickle
sys.setrecursionlimit(20000)
def main():
    unit,part,K,budget,irfile=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),float(sys.argv[4]),sys.argv[5]
    from . import sym
    from .llir import Module
    from .units import UNITS
    u=UNITS[unit]; out=dict(unit=unit,part=part,obl=[],tool=None,qtime=0,nq=0,paths=0,notes=[])
    t=time.time()
    m=Module(irfile); m.kept=json.load(open(irfile+'.kept')); eng=None
    try:
        eng=u.engine(m,budget)
        eng.part=(part,K) if K>1 else None
        u.run(eng)
    except sym.ToolError as e: out['tool']='tool: %s'%e
    except sym.Budget: out['tool']='time budget exhausted'
    except sym.RoleMismatch as e: out['tool']='no contract fits: %s'%e
    except sym.TrialFail as e: out['tool']='trial'
    except Exception as e: out['tool']='internal: '+traceback.format_exc()[-600:]
    if eng is not None:
        out['obl']=[(o.name,o.status,round(o.t,3),o.backend) if o.status=='ok' else (o.name,o.status,round(o.t,3),o.backend,o.path[-300:],(o.model or '')[:3000]) for o in eng.obl]
        out['qtime']=round(eng.qtime,2); out['nq']=eng.nq; out['paths']=getattr(eng,'paths',0)+getattr(eng,'paths_total',0); out['notes']=sorted(eng.notes); out['reach']=eng.reach
    out['t']=round(time.time()-t,1)
    print('RESULT '+json.dumps(out))
main()
