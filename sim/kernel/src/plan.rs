use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;

/// One scheduling decision: an operation, a delivery or a fault. Its
/// arguments are resolved modulo what exists when it executes, so that any
/// subsequence of a plan is again a plan.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: Cow<'static, str>,
    pub a: Vec<u64>,
}

impl Step {
    pub fn new(op: &'static str, a: Vec<u64>) -> Self {
        Step {
            op: Cow::Borrowed(op),
            a,
        }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub cfg: BTreeMap<String, u64>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn cfg(&self, k: &str) -> u64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn to_json(&self) -> Value {
        json!({
            "cfg": self.cfg,
            "steps": self.steps.iter().map(|s| {
                let mut v = vec![json!(s.op)];
                v.extend(s.a.iter().map(|x| json!(x)));
                Value::Array(v)
            }).collect::<Vec<_>>(),
        })
    }
    pub fn from_json(v: &Value) -> Option<Plan> {
        let mut cfg = BTreeMap::new();
        for (k, x) in v.get("cfg")?.as_object()? {
            cfg.insert(k.clone(), x.as_u64()?);
        }
        let mut steps = vec![];
        for s in v.get("steps")?.as_array()? {
            let s = s.as_array()?;
            let op = s.first()?.as_str()?.to_string();
            let mut a = vec![];
            for x in &s[1..] {
                a.push(x.as_u64()?);
            }
            steps.push(Step {
                op: Cow::Owned(op),
                a,
            });
        }
        Some(Plan { cfg, steps })
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = 0u64;
        for (k, v) in &self.cfg {
            h = crate::rng::mix(&[h, crate::rng::hash_str(k), *v]);
        }
        for s in &self.steps {
            h = crate::rng::mix(&[h, crate::rng::hash_str(&s.op)]);
            for x in &s.a {
                h = crate::rng::mix(&[h, *x]);
            }
        }
        h
    }
}
