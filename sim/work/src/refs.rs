//! References: what an operation gives alone in a fresh process.
use crate::rules::AnyRule;
use model::*;

pub fn needed(plan: &Plan) -> Vec<(String, RefJob)> {
    let mut v = vec![];
    match &plan.body {
        Body::Conc(c) => {
            for cl in &c.clients {
                for op in &cl.ops {
                    if let Op::Build(s) = op {
                        let mut r = *s;
                        if r.ctor == Ctor::ParNew {
                            r.ctor = Ctor::New;
                        }
                        v.push((crate::conc::ref_key(s), RefJob::Rule(r)));
                    }
                }
            }
        }
        Body::Hist(h) => {
            for op in crate::hist::needed(h) {
                v.push((op.key(), RefJob::Hist(op)));
            }
        }
        Body::Oom(o) => v.push((crate::oom::key(&o.rule, &o.op), RefJob::Oom(o.rule, o.op.clone()))),
        _ => {}
    }
    v
}

pub fn compute(job: &RefJob) -> Vec<u64> {
    match job {
        RefJob::Rule(s) => AnyRule::build(s).bits(),
        RefJob::Hist(op) => crate::hist::alone(op),
        RefJob::Oom(r, op) => crate::oom::alone(r, op),
    }
}
