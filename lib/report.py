"""verdicts, known findings, evidence"""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.viol = []; s.t0 = time.time(); s.cov = {}; s.notes = []; s.assume = []
        s.obl = 0; s.inst = {}
    def ok(s, rule, n=1):
        s.obl += n; s.inst[rule] = s.inst.get(rule, 0) + n
    def bad(s, rule, key, where, msg):
        """key: stable identity of the construct (function + role), never a line number"""
        s.obl += 1; s.inst[rule] = s.inst.get(rule, 0) + 1
        for v in s.viol:
            if v['key'] == key and v['rule'] == rule: return
        s.viol.append(dict(rule=rule, key=key, where=where, msg=msg))
    def need(s, rule, n):
        from build import Broken
        kn = known(s.pid)
        if any(not any(e['rule'] == v['rule'] and e['key'] == v['key'] for e in kn) for v in s.viol): return     # a violation is reported whatever else is missing
        if s.inst.get(rule, 0) < n:
            raise Broken(f'rule {rule}: {s.inst.get(rule,0)} instances found, at least {n} expected')

def known(pid):
    out = []
    p = HERE + '/known_findings.json'
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == pid and e.get('status') == 'known': out.append(e)
    return out

def finish(r, level='other', explanation=''):
    kn = known(r.pid); fresh = []; old = []
    for v in r.viol:
        k = [e for e in kn if e['rule'] == v['rule'] and e['key'] == v['key']]
        (old if k else fresh).append(v)
    cov = dict(explanation=explanation, obligations=r.obl, rule_instances=r.inst)
    cov.update(r.cov)
    if r.notes: cov['undecided'] = r.notes[:60]
    ev = dict(property=r.pid, tier=r.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, wall_s=round(time.time() - r.t0, 2), violations=len(fresh),
              assumptions=r.assume, known_findings=[v['key'] for v in old],
              reports=[f"{v['where']}: [{v['rule']}] {v['msg']}" for v in r.viol])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{r.pid}.json', 'w'), indent=1)
    print(f"{r.pid}: {r.obl} obligations over {len(r.inst)} rules: " + ', '.join(f'{k}={v}' for k, v in sorted(r.inst.items())))
    for v in old: print(f"KNOWN-FINDING: property={r.pid} {v['key']} {v['where']}: {v['msg']}")
    if fresh:
        os.makedirs(HERE + '/replay', exist_ok=True)
        rp = f'{HERE}/replay/{r.pid}.txt'
        with open(rp, 'w') as f:
            for v in fresh: f.write(f"{v['where']}: [{v['rule']}] {v['key']}: {v['msg']}\n")
        for v in fresh: print(f"{v['where']}: [{v['rule']}] {v['key']}: {v['msg']}")
        print(f'VIOLATION property={r.pid} replay={rp}')
        return 1
    return 0
