//! The simulated file system.
use crate::spec::FNode;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Vfs {
    pub nodes: BTreeMap<String, FNode>,
}

pub fn normalize(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

impl Vfs {
    pub fn put(&mut self, path: &str, n: FNode) {
        let p = normalize(path);
        let mut parent = String::new();
        for c in p.split('/').skip(1) {
            if !parent.is_empty() {
                self.nodes.entry(parent.clone()).or_insert(FNode::Dir);
            }
            parent = format!("{parent}/{c}");
        }
        self.nodes.insert(p, n);
    }
    /// canonical path of an existing object, or an errno
    pub fn resolve(&self, path: &str, follow_last: bool) -> Result<String, i32> {
        self.resolve_n(path, follow_last, 0)
    }
    fn resolve_n(&self, path: &str, follow_last: bool, depth: u32) -> Result<String, i32> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let mut cur = String::new();
        for (i, c) in comps.iter().enumerate() {
            if *c == ".." {
                if let Some(k) = cur.rfind('/') {
                    cur.truncate(k);
                }
                continue;
            }
            if !cur.is_empty() && !matches!(self.nodes.get(&cur), Some(FNode::Dir)) {
                return Err(libc::ENOTDIR);
            }
            let next = format!("{cur}/{c}");
            match self.nodes.get(&next) {
                None => return Err(libc::ENOENT),
                Some(FNode::Link(t)) if i + 1 < comps.len() || follow_last => {
                    let t = if t.starts_with('/') { t.clone() } else { format!("{cur}/{t}") };
                    cur = self.resolve_n(&t, true, depth + 1)?;
                }
                Some(_) => cur = next,
            }
        }
        if path.ends_with('/') && !matches!(self.nodes.get(&cur), Some(FNode::Dir) | None) {
            return Err(libc::ENOTDIR);
        }
        Ok(if cur.is_empty() { "/".into() } else { cur })
    }
    pub fn node(&self, canonical: &str) -> Option<&FNode> {
        if canonical == "/" { Some(&FNode::Dir) } else { self.nodes.get(canonical) }
    }
    pub fn content(&self, canonical: &str) -> Option<Vec<u8>> {
        match self.nodes.get(canonical) {
            Some(FNode::Text(t)) => Some(t.clone().into_bytes()),
            Some(FNode::Bytes(b)) => Some(b.clone()),
            _ => None,
        }
    }
    pub fn list(&self, canonical: &str) -> Vec<(String, FNode)> {
        let pre = if canonical == "/" { "/".to_string() } else { format!("{canonical}/") };
        self.nodes
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| !k[pre.len()..].contains('/'))
            .map(|(k, n)| (k[pre.len()..].to_string(), n.clone()))
            .collect()
    }
}
