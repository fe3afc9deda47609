//! Scenarios: everything one seed stands for, and their execution.
use crate::ast::Ledger;
use crate::spec::*;
use crate::vfs::Vfs;
use crate::world::{self, Env, Hist};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub led: Option<Ledger>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub files: Vec<(String, FNode)>,
    pub runs: Vec<RunSpec>,
    /// which variant of the property's scenarios this is
    #[serde(default)]
    pub kind: String,
}

impl Scenario {
    pub fn vfs(&self) -> Vfs {
        let mut v = Vfs::default();
        v.put("/sim/cwd/.", FNode::Dir);
        v.put(crate::kit::OTHER, FNode::Text("2020-01-01 open Assets:Other\n".into()));
        if let Some(l) = &self.led {
            l.files_into(&mut v);
        }
        for (p, n) in &self.files {
            v.put(p, n.clone());
        }
        v
    }
    pub fn execute(&self, env: &Env, keep_trace: bool) -> Vec<Hist> {
        let v = self.vfs();
        self.runs.iter().map(|r| world::run(env, &v, r, keep_trace)).collect()
    }
}

/// a property's part: scenarios from seeds, and their verdict
pub struct Prop {
    pub id: &'static str,
    pub make: fn(&Env, u64) -> Scenario,
    /// None: held. Some: "class: details"
    pub judge: fn(&Scenario, &[Hist]) -> Option<String>,
    /// did this scenario exercise what the property is about?
    pub nontrivial: fn(&Scenario, &[Hist]) -> bool,
    pub rule: &'static str,
    /// scenarios of a quick check
    pub quick: u64,
}

/// the verdict, unless the simulator itself is at fault
pub fn verdict(p: &Prop, sc: &Scenario, hs: &[Hist]) -> Result<Option<String>, String> {
    for (i, h) in hs.iter().enumerate() {
        if let Some(x) = &h.harness {
            return Err(format!("run {i}: {x}"));
        }
    }
    Ok((p.judge)(sc, hs))
}
