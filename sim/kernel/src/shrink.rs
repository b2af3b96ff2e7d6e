use crate::{Plan, Step};

/// Minimises a failing plan: drops steps (ddmin), then shrinks arguments and
/// configuration values, as long as `fails` (same violation class) holds.
pub fn minimise(plan: &Plan, mut fails: impl FnMut(&Plan) -> bool, mut budget: usize) -> Plan {
    let mut best = plan.clone();
    loop {
        let before = best.fingerprint();
        best = drop_steps(best, &mut fails, &mut budget);
        best = shrink_args(best, &mut fails, &mut budget);
        best = shrink_cfg(best, &mut fails, &mut budget);
        if best.fingerprint() == before || budget == 0 {
            return best;
        }
    }
}

fn try_plan(
    cand: Plan,
    best: &mut Plan,
    fails: &mut impl FnMut(&Plan) -> bool,
    budget: &mut usize,
) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    if fails(&cand) {
        *best = cand;
        true
    } else {
        false
    }
}

fn drop_steps(
    mut best: Plan,
    fails: &mut impl FnMut(&Plan) -> bool,
    budget: &mut usize,
) -> Plan {
    let mut chunk = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() {
            let mut cand = best.clone();
            let end = (i + chunk).min(cand.steps.len());
            cand.steps.drain(i..end);
            if try_plan(cand, &mut best, fails, budget) {
                any = true;
            } else {
                i += chunk;
            }
            if *budget == 0 {
                return best;
            }
        }
        if chunk == 1 {
            if !any {
                return best;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
}

fn candidates(x: u64) -> Vec<u64> {
    let mut c = vec![];
    for v in [0, 1, 2, x / 2, x.wrapping_sub(1)] {
        if v < x && !c.contains(&v) {
            c.push(v);
        }
    }
    c
}

fn shrink_args(
    mut best: Plan,
    fails: &mut impl FnMut(&Plan) -> bool,
    budget: &mut usize,
) -> Plan {
    for i in 0..best.steps.len() {
        for j in 0..best.steps[i].a.len() {
            for v in candidates(best.steps[i].a[j]) {
                let mut cand = best.clone();
                let mut a = cand.steps[i].a.clone();
                a[j] = v;
                cand.steps[i] = Step {
                    op: cand.steps[i].op.clone(),
                    a,
                };
                if try_plan(cand, &mut best, fails, budget) {
                    break;
                }
            }
        }
    }
    best
}

fn shrink_cfg(mut best: Plan, fails: &mut impl FnMut(&Plan) -> bool, budget: &mut usize) -> Plan {
    let keys: Vec<String> = best.cfg.keys().cloned().collect();
    for k in keys {
        for v in candidates(best.cfg[&k]) {
            let mut cand = best.clone();
            cand.cfg.insert(k.clone(), v);
            if try_plan(cand, &mut best, fails, budget) {
                break;
            }
        }
    }
    best
}
