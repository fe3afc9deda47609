//! The simulated operating system and the execution of one run.
use crate::client;
use crate::json::J;
use crate::rng::Rng;
use crate::spec::*;
use crate::vfs::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub struct Env {
    pub pod: String,
    pub launcher: String,
    pub preload: String,
    pub helper: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// killed by the simulator (a Kill fault)
    Killed,
}

#[derive(Clone, Debug)]
pub struct ExecRec {
    pub prog: String,
    pub args: Vec<String>,
    pub env: Vec<String>,
    pub spawn: bool,
    pub ok: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub answers: usize,
    /// requests for memory so far, and bytes in use
    pub allocs: u32,
    pub live: i64,
    /// open files
    pub open: usize,
    pub threads: u32,
    /// calls of the operating system so far
    pub calls: u64,
}

#[derive(Clone, Debug)]
pub struct Hist {
    /// per step: index of the line sent
    pub step_line: Vec<Option<usize>>,
    pub lines: Vec<Vec<u8>>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub exit: Exit,
    pub deadlock: bool,
    pub runaway: bool,
    pub hang: bool,
    /// forbidden effects on files
    pub mutations: Vec<String>,
    pub log: Vec<u8>,
    pub execs: Vec<ExecRec>,
    /// fault index -> times fired
    pub fired: Vec<u32>,
    pub fired_kinds: BTreeMap<String, u64>,
    /// calls per site
    pub counts: BTreeMap<String, u32>,
    /// (site, path) -> calls
    pub path_counts: BTreeMap<(String, String), u32>,
    pub hash: u64,
    pub shape: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub trace: Vec<String>,
    /// bytes that had been answered completely at the time of each wait for input: (lines consumed fully by server reads, answers)
    pub late: Option<String>,
    pub harness: Option<String>,
    pub wall_us: u64,
    pub consumed_eof: bool,
    /// threads the program ever had
    pub threads: u32,
    /// complete lines the program has read
    pub consumed_lines: usize,
    /// what the program was given ends within a character
    pub torn_character: bool,
    /// requests for memory, up to the last call; and up to the first read of standard input
    pub allocs: u32,
    pub allocs_at_input: u32,
    /// taken whenever the program first asks for input after so many answers
    pub marks: Vec<Mark>,
}

impl Hist {
    pub fn answers(&self) -> Vec<String> {
        let mut v: Vec<String> = self.stdout.split(|b| *b == b'\n').map(|l| String::from_utf8_lossy(l).into_owned()).collect();
        if v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    }
    pub fn answer(&self, step: usize) -> Option<J> {
        let l = (*self.step_line.get(step)?)?;
        let a = self.answers();
        J::parse(a.get(l)?).ok()
    }
}

struct Handle {
    path: String,
    data: Vec<u8>,
    off: usize,
    log: bool,
    dir: bool,
}

struct World<'a> {
    spec: &'a RunSpec,
    vfs: Vfs,
    /// files changed during the session: when
    changed: BTreeMap<String, i64>,
    waits: u32,
    cwd: String,
    rng: Rng,
    ent: Rng,
    h: Hist,
    handles: HashMap<i64, Handle>,
    next_handle: i64,
    site_n: BTreeMap<usize, u32>, // fault -> matching calls so far
    inbuf: Vec<u8>,
    sent_ahead: usize,
    inpos: usize,
    closed: bool,
    eof: bool,
    next_step: usize,
    answers: usize,
    scanned: usize,
    delivered_lines: usize,
    /// what was delivered of a line which is not complete
    unfinished: Vec<u8>,
    clock_reads: u32,
    skew: i64,
    retries: u32,
    keep_trace: bool,
    eintr_run: u32,
    tail_sent: bool,
}

const MAX_STEPS: u64 = 400_000;

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

struct Req {
    op: u32,
    a: i64,
    b: i64,
    c: i64,
    threads: u32,
    payload: Vec<u8>,
}
struct Rep {
    ret: i64,
    err: i32,
    data: Vec<u8>,
    kill: bool,
}
fn ok(ret: i64) -> Rep {
    Rep { ret, err: 0, data: vec![], kill: false }
}
fn okd(ret: i64, data: Vec<u8>) -> Rep {
    Rep { ret, err: 0, data, kill: false }
}
fn er(e: i32) -> Rep {
    Rep { ret: -1, err: e, data: vec![], kill: false }
}

pub fn errname(e: i32) -> String {
    match e {
        libc::EINTR => "EINTR".into(),
        libc::EIO => "EIO".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::EBADF => "EBADF".into(),
        libc::ENOTDIR => "ENOTDIR".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ECONNRESET => "ECONNRESET".into(),
        libc::ENOEXEC => "ENOEXEC".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EDQUOT => "EDQUOT".into(),
        e => format!("errno{e}"),
    }
}

fn actname(a: &Act) -> String {
    match a {
        Act::Errno(e) => errname(*e),
        Act::Short(_) => "short".into(),
        Act::Zero => "zero".into(),
        Act::Eof => "eof".into(),
        Act::Kill => "kill".into(),
    }
}

impl World<'_> {
    fn note_fault(&mut self, k: String) {
        *self.h.fired_kinds.entry(k).or_insert(0) += 1;
    }
    /// the fault, if any, for this call
    fn fault(&mut self, site: &str, path: Option<&str>) -> Option<Act> {
        *self.h.counts.entry(site.to_string()).or_insert(0) += 1;
        if let Some(p) = path {
            *self.h.path_counts.entry((site.to_string(), p.to_string())).or_insert(0) += 1;
        }
        let mut out = None;
        for (i, f) in self.spec.faults.iter().enumerate() {
            if f.site != site && f.site != "any" {
                continue;
            }
            if let Some(fp) = &f.path {
                if path != Some(fp.as_str()) {
                    continue;
                }
            }
            let n = self.site_n.entry(i).or_insert(0);
            *n += 1;
            if (*n == f.nth || (f.sticky && *n >= f.nth)) && out.is_none() {
                out = Some((i, f.act.clone()));
            }
        }
        let (i, act) = out?;
        self.h.fired[i] += 1;
        self.note_fault(format!("{site}:{}", actname(&act)));
        Some(act)
    }
    fn eintr(&mut self, site: &str) -> bool {
        if self.spec.eintr > 0 && self.eintr_run < 4 && self.rng.pct(self.spec.eintr) {
            self.eintr_run += 1;
            self.note_fault(format!("{site}:EINTR"));
            true
        } else {
            self.eintr_run = 0;
            false
        }
    }
    fn piece(&mut self, max: u32, n: usize) -> usize {
        if max == 0 || n <= 1 || self.h.steps > 20_000 {
            return n;
        }
        let m = (max as usize).min(n);
        let k = 1 + self.rng.below(m);
        if k < n {
            *self.h.fired_kinds.entry("split-transfer".into()).or_insert(0) += 1;
        }
        k
    }
    fn line_answered(&self, line: usize) -> bool {
        self.answers > line
    }
    fn count_answers(&mut self) {
        while self.scanned < self.h.stdout.len() {
            if self.h.stdout[self.scanned] == b'\n' {
                self.answers += 1;
            }
            self.scanned += 1;
        }
    }
    /// the client acts: appends to the pipe, or closes it; false when it can only wait
    fn client_turn(&mut self) -> bool {
        self.count_answers();
        let mut sent = false;
        let burst = if self.spec.window == 0 { usize::MAX } else { 1 + self.rng.below(self.spec.window as usize) };
        let mut k = 0;
        while self.next_step < self.spec.steps.len() && k < burst {
            let out = self.h.lines.len() - self.answers.min(self.h.lines.len());
            if self.spec.window > 0 && out >= self.spec.window as usize {
                break;
            }
            let st = self.spec.steps[self.next_step].clone();
            match &st {
                Step::Line(b) => {
                    self.push_line(b.clone());
                }
                Step::Tail(b) => {
                    self.h.step_line.push(Some(self.h.lines.len()));
                    self.h.lines.push(b.clone());
                    self.inbuf.extend_from_slice(b);
                    self.tail_sent = true;
                    self.closed = true;
                    self.next_step = self.spec.steps.len();
                    return true;
                }
                Step::Req { id, method, param, style } => {
                    let steps = &self.h.step_line;
                    let open = |src: &usize| matches!(steps.get(*src), Some(Some(l)) if !self.line_answered(*l));
                    if param.steps().iter().any(open) {
                        break;
                    }
                    let hist = &self.h;
                    match client::params(param, &|s| hist.answer(s)) {
                        None => {
                            self.h.step_line.push(None);
                            self.next_step += 1;
                            continue;
                        }
                        Some(p) => {
                            let line = client::encode(id, method, p.as_ref(), *style);
                            self.push_line(line);
                        }
                    }
                }
            }
            self.next_step += 1;
            sent = true;
            k += 1;
        }
        if sent && self.spec.bare_end && self.next_step >= self.spec.steps.len() && self.h.lines.last().is_some_and(|l| !l.is_empty()) {
            if self.inbuf.last() == Some(&b'\n') {
                self.inbuf.pop();
            }
            *self.h.fired_kinds.entry("no-final-newline".into()).or_insert(0) += 1;
            self.closed = true;
        }
        if sent && self.spec.ahead > 0 && self.next_step < self.spec.steps.len() {
            self.send_ahead();
        }
        if sent {
            // the client thinks for a while
            self.h.sim_us += [1000u64, 50_000, 2_000_000, 600_000_000, 86_400_000_000][self.rng.below(5)];
            return true;
        }
        if self.next_step >= self.spec.steps.len() {
            self.closed = true;
            return true;
        }
        false
    }
    /// the beginning of the next line, when it does not wait for an answer
    fn send_ahead(&mut self) {
        let st = self.spec.steps[self.next_step].clone();
        let line = match &st {
            Step::Line(b) => b.clone(),
            Step::Req { id, method, param: param @ (Param::None | Param::Json(_)), style } => {
                let Some(p) = client::params(param, &|_| None) else { return };
                client::encode(id, method, p.as_ref(), *style)
            }
            _ => return,
        };
        if line.len() < 2 {
            return;
        }
        let k = 1 + self.rng.below((self.spec.ahead as usize).min(line.len() - 1));
        self.inbuf.extend_from_slice(&line[..k]);
        self.sent_ahead = k;
        *self.h.fired_kinds.entry("part-of-next".into()).or_insert(0) += 1;
    }
    fn push_line(&mut self, b: Vec<u8>) {
        self.h.step_line.push(Some(self.h.lines.len()));
        self.inbuf.extend_from_slice(&b[self.sent_ahead..]);
        self.sent_ahead = 0;
        self.inbuf.push(b'\n');
        self.h.lines.push(b);
    }
    fn act_to_rep(act: Act) -> Option<Rep> {
        match act {
            Act::Errno(e) => Some(er(e)),
            Act::Zero | Act::Eof => Some(ok(0)),
            Act::Kill => Some(Rep { ret: 0, err: 0, data: vec![], kill: true }),
            Act::Short(_) => None,
        }
    }
    /// others work on the files of the ledger
    fn meanwhile(&mut self) {
        let spec = self.spec;
        if spec.meanwhile.is_empty() {
            return;
        }
        self.count_answers();
        if self.answers == 0 {
            return;
        }
        self.waits += 1;
        for (n, p, node) in &spec.meanwhile {
            if *n != self.waits {
                continue;
            }
            self.changed.insert(normalize(p), 1_700_000_000 + self.h.sim_us as i64 / 1_000_000 + 1);
            let k = match node {
                None => {
                    self.vfs.nodes.remove(&normalize(p));
                    "file-removed"
                }
                Some(n) => {
                    self.vfs.put(p, n.clone());
                    "file-changed"
                }
            };
            self.note_fault(k.into());
        }
    }
    fn op_read(&mut self, q: &Req) -> Rep {
        self.meanwhile();
        if self.eof {
            self.h.consumed_eof = true;
            return ok(0);
        }
        let mut cap = usize::MAX;
        // a wait for input with nothing to deliver: every completely delivered request must have been answered
        if self.inpos >= self.inbuf.len() && !self.closed {
            if !self.client_turn() {
                if q.threads > 1 && self.retries < 15_000 {
                    self.retries += 1;
                    return Rep { ret: -1000, err: 0, data: vec![], kill: false };
                }
                self.h.deadlock = true;
                return Rep { ret: 0, err: 0, data: vec![], kill: true };
            }
        }
        match self.fault("stdin", None) {
            Some(Act::Short(n)) => cap = n.max(1) as usize,
            Some(Act::Eof) => {
                self.eof = true;
                return ok(0);
            }
            Some(a) => {
                if let Some(r) = Self::act_to_rep(a) {
                    return r;
                }
            }
            None => {}
        }
        if self.eintr("stdin") {
            return er(libc::EINTR);
        }
        let avail = self.inbuf.len() - self.inpos;
        if avail == 0 {
            self.h.consumed_eof = true;
            return ok(0);
        }
        let n = (q.b as usize).min(avail).min(cap);
        let n = self.piece(self.spec.frag, n);
        let d = self.inbuf[self.inpos..self.inpos + n].to_vec();
        self.delivered_lines += d.iter().filter(|b| **b == b'\n').count();
        for b in &d {
            if *b == b'\n' {
                self.unfinished.clear();
            } else {
                self.unfinished.push(*b);
            }
        }
        self.inpos += n;
        okd(n as i64, d)
    }
    fn op_write(&mut self, q: &Req) -> Rep {
        let site = if q.a == 1 { "stdout" } else { "stderr" };
        let mut cap = usize::MAX;
        match self.fault(site, None) {
            Some(Act::Short(n)) => cap = n.max(1) as usize,
            Some(a) => {
                if let Some(r) = Self::act_to_rep(a) {
                    return r;
                }
            }
            None => {}
        }
        if q.payload.is_empty() {
            return ok(0);
        }
        if self.eintr(site) {
            return er(libc::EINTR);
        }
        let n = q.payload.len().min(cap);
        let n = self.piece(self.spec.wfrag, n);
        if q.a == 1 {
            self.h.stdout.extend_from_slice(&q.payload[..n]);
        } else {
            self.h.stderr.extend_from_slice(&q.payload[..n]);
        }
        ok(n as i64)
    }
    fn is_log(&self, canon: &str) -> bool {
        self.spec.log_path().is_some_and(|p| p == canon)
    }
    fn stat_bytes(&self, canon: &str) -> Vec<u8> {
        let (mode, size) = match self.vfs.node(canon) {
            Some(FNode::Dir) => (0o40755u32, 4096u64),
            Some(FNode::Link(t)) => (0o120777, t.len() as u64),
            _ => (0o100644, self.vfs.content(canon).map(|c| c.len()).unwrap_or(0) as u64),
        };
        let mut ino = 0xcbf29ce484222325;
        fnv(&mut ino, canon.as_bytes());
        let mut d = vec![];
        d.extend_from_slice(&mode.to_le_bytes());
        d.extend_from_slice(&0u32.to_le_bytes());
        d.extend_from_slice(&(ino & 0x7fffffffffff).to_le_bytes());
        d.extend_from_slice(&size.to_le_bytes());
        d.extend_from_slice(&self.changed.get(canon).copied().unwrap_or(1_700_000_000).to_le_bytes());
        d
    }
    fn op_open(&mut self, q: &Req) -> Rep {
        let path = raw_text(&q.payload);
        let fl = q.a as i32;
        let write = fl & libc::O_ACCMODE != libc::O_RDONLY || fl & (libc::O_CREAT | libc::O_TRUNC) != 0;
        if path == "/dev/urandom" || path == "/dev/random" {
            self.next_handle += 1;
            let mut d = vec![0u8; 4096];
            for b in d.iter_mut() {
                *b = self.ent.u64() as u8;
            }
            self.handles.insert(self.next_handle, Handle { path, data: d.clone(), off: 0, log: false, dir: false });
            return okd(self.next_handle, d);
        }
        let mut canon = self.vfs.resolve(&path, true);
        let norm = normalize(&path);
        let logish = self.is_log(&norm);
        if write && !logish {
            self.h.mutations.push(format!("open for writing: {path} flags {fl:o}"));
            return er(libc::EROFS);
        }
        let site = if logish { "logopen" } else { "open" };
        if let Some(a) = self.fault(site, Some(&norm)) {
            if let Some(r) = Self::act_to_rep(a) {
                return r;
            }
        }
        if write && logish {
            if fl & libc::O_TRUNC != 0 || fl & libc::O_APPEND == 0 {
                self.h.mutations.push(format!("log opened without append: flags {fl:o}"));
            }
            if canon.is_err() && fl & libc::O_CREAT != 0 {
                let dir = norm.rfind('/').map_or("", |k| &norm[..k]);
                if dir.is_empty() || matches!(self.vfs.nodes.get(dir), Some(FNode::Dir)) {
                    self.vfs.put(&norm, FNode::Bytes(vec![]));
                    canon = Ok(norm.clone());
                }
            }
        }
        match canon {
            Err(e) => er(e),
            Ok(c) => {
                let dir = matches!(self.vfs.node(&c), Some(FNode::Dir));
                if fl & libc::O_DIRECTORY != 0 && !dir {
                    return er(libc::ENOTDIR);
                }
                let data = self.vfs.content(&c).unwrap_or_default();
                self.next_handle += 1;
                self.handles.insert(self.next_handle, Handle { path: c, data: data.clone(), off: 0, log: write && logish, dir });
                okd(self.next_handle, data)
            }
        }
    }
    fn op_fread(&mut self, q: &Req) -> Rep {
        let Some((path, dir)) = self.handles.get(&q.a).map(|h| (h.path.clone(), h.dir)) else { return er(libc::EBADF) };
        let mut cap = usize::MAX;
        if !path.starts_with("/dev/") {
            match self.fault("fread", Some(&path)) {
                Some(Act::Short(n)) => cap = n.max(1) as usize,
                Some(a) => {
                    if let Some(r) = Self::act_to_rep(a) {
                        return r;
                    }
                }
                None => {}
            }
            if dir {
                return er(libc::EISDIR);
            }
            if self.eintr("fread") {
                return er(libc::EINTR);
            }
        }
        let h = &self.handles[&q.a];
        let off = if q.c >= 0 { q.c as usize } else { h.off };
        let avail = h.data.len().saturating_sub(off);
        let n = (q.b as usize).min(avail).min(cap);
        let n = self.piece(self.spec.ffrag, n);
        let h = self.handles.get_mut(&q.a).unwrap();
        let d = h.data[off.min(h.data.len())..].iter().take(n).copied().collect::<Vec<_>>();
        if q.c < 0 {
            h.off += d.len();
        }
        okd(d.len() as i64, d)
    }
    fn op_fwrite(&mut self, q: &Req) -> Rep {
        let Some((path, log)) = self.handles.get(&q.a).map(|h| (h.path.clone(), h.log)) else { return er(libc::EBADF) };
        if !log {
            self.h.mutations.push(format!("write to {path}"));
            return er(libc::EBADF);
        }
        let mut cap = usize::MAX;
        match self.fault("logwrite", Some(&path)) {
            Some(Act::Short(n)) => cap = n.max(1) as usize,
            Some(a) => {
                if let Some(r) = Self::act_to_rep(a) {
                    return r;
                }
            }
            None => {}
        }
        if self.eintr("logwrite") {
            return er(libc::EINTR);
        }
        let n = self.piece(self.spec.wfrag, q.payload.len().min(cap));
        let mut cur = self.vfs.content(&path).unwrap_or_default();
        cur.extend_from_slice(&q.payload[..n]);
        self.vfs.nodes.insert(path, FNode::Bytes(cur));
        ok(n as i64)
    }
    fn op_path(&mut self, q: &Req) -> Rep {
        let path = raw_text(&q.payload);
        let norm = normalize(&path);
        let site = match q.op {
            7 | 18 => "stat",
            8 => "readdir",
            _ => "realpath",
        };
        let site = if self.is_log(&norm) { "logstat" } else { site };
        if let Some(a) = self.fault(site, Some(&norm)) {
            if let Some(r) = Self::act_to_rep(a) {
                return r;
            }
        }
        let nofollow = q.op == 7 && q.a != 0 || q.op == 20;
        match self.vfs.resolve(&path, !nofollow) {
            Err(e) => er(e),
            Ok(c) => match q.op {
                7 => okd(0, self.stat_bytes(&c)),
                18 => ok(0),
                9 => okd(0, raw_bytes(&c)),
                20 => match self.vfs.node(&c) {
                    Some(FNode::Link(t)) => {
                        let t = raw_bytes(t);
                        okd(t.len() as i64, t)
                    }
                    _ => er(libc::EINVAL),
                },
                8 => {
                    if !matches!(self.vfs.node(&c), Some(FNode::Dir)) {
                        return er(libc::ENOTDIR);
                    }
                    let mut l = self.vfs.list(&c);
                    l.push((".".into(), FNode::Dir));
                    l.push(("..".into(), FNode::Dir));
                    self.rng.shuffle(&mut l);
                    let mut d = vec![];
                    for (i, (name, n)) in l.iter().enumerate() {
                        d.push(match n {
                            FNode::Dir => 4u8,
                            FNode::Link(_) => 10,
                            _ => 8,
                        });
                        d.push(0);
                        d.extend_from_slice(&(i as u64 + 100).to_le_bytes());
                        let name = raw_bytes(name);
                        d.extend_from_slice(&(name.len() as u16).to_le_bytes());
                        d.extend_from_slice(&name);
                    }
                    okd(0, d)
                }
                _ => er(libc::ENOSYS),
            },
        }
    }
    fn op_proc(&mut self, q: &Req) -> Rep {
        let b = &q.payload;
        let z = b.iter().position(|c| *c == 0).unwrap_or(0);
        let prog = raw_text(&b[..z]);
        let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        let (ac, ec) = (u(z + 1), u(z + 5));
        let mut it = b[z + 9..].split(|c| *c == 0).map(raw_text);
        let args: Vec<String> = it.by_ref().take(ac).collect();
        let env: Vec<String> = it.take(ec).collect();
        let spawn = q.op == 14;
        let site = if spawn { "spawn" } else { "exec" };
        let fault = self.fault(site, Some(&prog));
        let out = self.spec.exec.iter().find(|e| e.prog == prog && e.code > -1000).cloned();
        let code = match (&fault, &out) {
            (Some(Act::Errno(e)), _) => -e,
            (_, Some(o)) => o.code,
            _ => -libc::ENOENT,
        };
        self.h.execs.push(ExecRec { prog, args, env, spawn, ok: code >= 0 });
        if matches!(fault, Some(Act::Kill)) {
            return Rep { ret: 0, err: 0, data: vec![], kill: true };
        }
        if code < 0 {
            return er(-code);
        }
        if spawn {
            let o = out.unwrap();
            let hex = |s: &str| if s.is_empty() { "-".into() } else { s.bytes().map(|b| format!("{b:02x}")).collect::<String>() };
            return okd(0, format!("{} {} {}", code, hex(&o.out), hex(&o.err)).into_bytes());
        }
        ok(code as i64)
    }
    fn handle(&mut self, q: &Req) -> Rep {
        match q.op {
            1 => {
                let f = self.spec.faults.iter().find(|f| f.site == "alloc");
                let n = f.map_or(0, |f| if f.sticky { -(f.nth as i64) } else { f.nth as i64 });
                okd(n, self.cwd.clone().into_bytes())
            }
            2 => self.op_read(q),
            3 => self.op_write(q),
            4 => self.op_open(q),
            5 => self.op_fread(q),
            6 => self.op_fwrite(q),
            7 | 8 | 9 | 18 | 20 => self.op_path(q),
            10 => {
                let mut d = vec![0u8; (q.a as usize).min(1 << 16)];
                for b in d.iter_mut() {
                    *b = (self.ent.u64() >> 24) as u8;
                }
                okd(d.len() as i64, d)
            }
            11 => {
                self.clock_reads += 1;
                for (n, delta) in &self.spec.jumps {
                    if *n == self.clock_reads {
                        self.skew += delta;
                        *self.h.fired_kinds.entry("clock-jump".into()).or_insert(0) += 1;
                    }
                }
                self.h.sim_us += 7;
                let t = self.h.sim_us;
                let secs = (t / 1_000_000) as i64;
                let secs = if q.a == 0 || q.a == 5 { self.spec.clock0.wrapping_add(self.skew).wrapping_add(secs) } else { 1000 + secs };
                let mut d = secs.to_le_bytes().to_vec();
                d.extend_from_slice(&((t % 1_000_000) as i64 * 1000).to_le_bytes());
                okd(0, d)
            }
            12 => {
                self.h.sim_us += (q.a.max(0) as u64).saturating_mul(1_000_000).saturating_add(q.b.max(0) as u64 / 1000);
                ok(0)
            }
            13 | 14 => self.op_proc(q),
            15 => {
                let t = String::from_utf8_lossy(&q.payload).replace('\0', " ");
                // the directory of the log may be made
                if let (Some(d), Some(log)) = (t.strip_prefix("mkdir ").map(normalize), self.spec.log_path()) {
                    if log.starts_with(&format!("{d}/")) {
                        let parent = d.rfind('/').map_or("", |k| &d[..k]);
                        return match (self.vfs.nodes.contains_key(&d), parent.is_empty() || matches!(self.vfs.nodes.get(parent), Some(FNode::Dir))) {
                            (true, _) => er(libc::EEXIST),
                            (_, false) => er(libc::ENOENT),
                            _ => {
                                self.vfs.put(&d, FNode::Dir);
                                ok(0)
                            }
                        };
                    }
                }
                self.h.mutations.push(t);
                er(libc::EROFS)
            }
            16 => {
                let Some(h) = self.handles.get_mut(&q.a) else { return er(libc::EBADF) };
                let base = match q.c {
                    0 => 0,
                    1 => h.off as i64,
                    _ => h.data.len() as i64,
                };
                let o = base + q.b;
                if o < 0 {
                    return er(libc::EINVAL);
                }
                h.off = o as usize;
                ok(o)
            }
            17 => {
                let Some(h) = self.handles.get(&q.a) else { return er(libc::EBADF) };
                let p = h.path.clone();
                let site = if self.is_log(&p) { "logstat" } else { "fstat" };
                if let Some(a) = self.fault(site, Some(&p)) {
                    if let Some(r) = Self::act_to_rep(a) {
                        return r;
                    }
                }
                okd(0, self.stat_bytes(&p))
            }
            19 => {
                let p = self.handles.get(&q.a).map(|h| h.path.clone()).unwrap_or_default();
                self.h.mutations.push(format!("{} {}", String::from_utf8_lossy(&q.payload), p));
                er(libc::EROFS)
            }
            21 => ok(0),
            _ => er(libc::ENOSYS),
        }
    }
    fn opname(op: u32) -> &'static str {
        ["?", "hello", "read", "write", "open", "fread", "fwrite", "stat", "readdir", "realpath", "rand", "clock", "sleep", "exec", "spawn", "mutate", "lseek", "fstat", "access", "mutfd", "readlink", "fsync"]
            .get(op as usize)
            .unwrap_or(&"?")
    }
}

pub fn run(env: &Env, base: &Vfs, spec: &RunSpec, keep_trace: bool) -> Hist {
    let t0 = std::time::Instant::now();
    let mut vfs = base.clone();
    for (p, n) in &spec.files {
        match n {
            Some(n) => vfs.put(p, n.clone()),
            None => {
                vfs.nodes.remove(&normalize(p));
            }
        }
    }
    let cwd = spec.dir().to_string();
    vfs.put(&format!("{cwd}/."), FNode::Dir);
    if let (Some((_, _, existing)), Some(p)) = (&spec.log, spec.log_path()) {
        if spec.log_link {
            vfs.put(&format!("{p}.real"), FNode::Text(existing.clone()));
            let name = p.rsplit('/').next().unwrap_or("").to_string();
            vfs.put(&p, FNode::Link(format!("{name}.real")));
        } else if !existing.is_empty() {
            vfs.put(&p, FNode::Text(existing.clone()));
        }
    }
    let h = Hist {
        step_line: vec![], lines: vec![], stdout: vec![], stderr: vec![], exit: Exit::Killed, deadlock: false,
        runaway: false, hang: false, mutations: vec![], log: vec![], execs: vec![], fired: vec![0; spec.faults.len()],
        fired_kinds: Default::default(), counts: Default::default(), path_counts: Default::default(),
        hash: 0xcbf29ce484222325, shape: 0xcbf29ce484222325, steps: 0, sim_us: 0, trace: vec![], late: None,
        harness: None, wall_us: 0, consumed_eof: false, threads: 1, consumed_lines: 0, torn_character: false, allocs: 0, allocs_at_input: 0, marks: vec![],
    };
    let mut w = World {
        spec, vfs, changed: BTreeMap::new(), waits: 0, cwd, rng: Rng::new(spec.seed), ent: Rng::new(spec.entropy ^ 0x5eed), h,
        handles: HashMap::new(), next_handle: 0, site_n: BTreeMap::new(), inbuf: vec![], sent_ahead: 0, inpos: 0, closed: false,
        eof: false, next_step: 0, answers: 0, scanned: 0, delivered_lines: 0, unfinished: vec![], clock_reads: 0, skew: 0, retries: 0,
        keep_trace, eintr_run: 0, tail_sent: false,
    };
    if let Some(i) = &spec.input {
        w.inbuf = i.clone();
        w.closed = true;
    }
    let (mut ours, theirs) = match UnixStream::pair() {
        Ok(p) => p,
        Err(e) => {
            w.h.harness = Some(format!("socketpair: {e}"));
            return w.h;
        }
    };
    let built_in = format!("{}-jar", env.launcher);
    let prog = match spec.prog.as_str() {
        "launcher" => &env.launcher,
        "launcher-jar" => &built_in,
        _ => &env.pod,
    };
    let mut c = Command::new(prog);
    c.args(spec.args.iter().map(|a| os(a))).env_clear();
    for (k, v) in &spec.env {
        c.env(k, os(v));
    }
    if let Some((p, level, _)) = &spec.log {
        c.env("LIMABEAN_POD_LOG", os(p));
        if !level.is_empty() {
            c.env("LIMABEAN_POD_LOG_LEVEL", level);
        }
    }
    c.env("SIM_ON", "1").env("SIM_HELPER", &env.helper).env("LD_PRELOAD", &env.preload);
    c.env("SIM_PAD", "x".repeat(spec.pad as usize));
    c.env("SIM_MACHINE", format!("{:06}", spec.machine));
    c.stdin(Stdio::from(std::os::fd::OwnedFd::from(theirs))).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 21 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            w.h.harness = Some(format!("spawn {prog}: {e}"));
            return w.h;
        }
    };
    drop(c);
    let _ = ours.set_read_timeout(Some(std::time::Duration::from_secs(120)));
    let mut killed = false;
    let mut hdr = [0u8; 48];
    loop {
        match ours.read_exact(&mut hdr) {
            Ok(()) => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                w.h.hang = true;
                killed = true;
                let _ = child.kill();
                break;
            }
            Err(_) => break,
        }
        let u = |i: usize| u32::from_le_bytes(hdr[i..i + 4].try_into().unwrap());
        let l = |i: usize| i64::from_le_bytes(hdr[i..i + 8].try_into().unwrap());
        let mut q = Req { op: u(0), a: l(8), b: l(16), c: l(24), threads: u(32), payload: vec![0; u(4) as usize] };
        if ours.read_exact(&mut q.payload).is_err() {
            break;
        }
        w.h.steps += 1;
        w.h.threads = w.h.threads.max(q.threads);
        let allocs = u32::from_le_bytes(hdr[36..40].try_into().unwrap());
        w.h.allocs = w.h.allocs.max(allocs);
        if q.op == 2 {
            if w.h.allocs_at_input == 0 {
                w.h.allocs_at_input = allocs;
            }
            w.count_answers();
            if w.h.marks.last().is_none_or(|m| m.answers < w.answers) {
                w.h.marks.push(Mark { answers: w.answers, allocs, live: l(40), open: w.handles.len(), threads: q.threads, calls: w.h.steps });
            }
        }
        if w.h.steps > MAX_STEPS {
            w.h.runaway = true;
            killed = true;
            let _ = child.kill();
            break;
        }
        let r = w.handle(&q);
        if r.ret != -1000 {
            let hello = q.op == 1;
            let mut b = vec![];
            b.extend_from_slice(&q.op.to_le_bytes());
            if !hello {
                b.extend_from_slice(&q.a.to_le_bytes());
                b.extend_from_slice(&q.b.to_le_bytes());
                b.extend_from_slice(&q.c.to_le_bytes());
            }
            b.extend_from_slice(&q.payload);
            b.extend_from_slice(&r.ret.to_le_bytes());
            b.extend_from_slice(&r.err.to_le_bytes());
            b.extend_from_slice(&r.data);
            fnv(&mut w.h.hash, &b);
            // shape: which calls with which outcomes, in which order
            let mut sb = q.op.to_le_bytes().to_vec();
            sb.extend_from_slice(&r.err.to_le_bytes());
            sb.push(match r.ret {
                x if x < 0 => 0,
                0 => 1,
                x if x < 16 => 2,
                x if x < 256 => 3,
                _ => 4,
            });
            fnv(&mut w.h.shape, &sb);
            if keep_trace && w.h.trace.len() < 5000 {
                let show = |b: &[u8]| {
                    let t = String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
                    format!("{t:?}")
                };
                w.h.trace.push(format!(
                    "{} a={} b={} c={} {} -> {}{}{} {}",
                    World::opname(q.op),
                    if hello { 0 } else { q.a },
                    q.b,
                    q.c,
                    show(&q.payload),
                    r.ret,
                    if r.err != 0 { format!(" {}", errname(r.err)) } else { String::new() },
                    if r.kill { " KILL" } else { "" },
                    if matches!(q.op, 2 | 5 | 9) { show(&r.data) } else { String::new() }
                ));
            }
        }
        if r.kill {
            killed = true;
            let _ = child.kill();
            break;
        }
        let mut out = Vec::with_capacity(16 + r.data.len());
        out.extend_from_slice(&r.ret.to_le_bytes());
        out.extend_from_slice(&r.err.to_le_bytes());
        out.extend_from_slice(&(r.data.len() as u32).to_le_bytes());
        out.extend_from_slice(&r.data);
        if ours.write_all(&out).is_err() {
            break;
        }
    }
    match child.wait() {
        Ok(st) => {
            w.h.exit = if killed {
                Exit::Killed
            } else if let Some(c) = st.code() {
                Exit::Code(c)
            } else {
                Exit::Signal(st.signal().unwrap_or(0))
            }
        }
        Err(e) => w.h.harness = Some(format!("wait: {e}")),
    }
    if w.h.exit == Exit::Code(97) {
        w.h.harness = Some("the simulated boundary broke down inside the program".into());
    }
    if let Some(i) = spec.faults.iter().position(|f| f.site == "alloc") {
        if w.h.allocs >= spec.faults[i].nth || w.h.exit == Exit::Signal(libc::SIGABRT) {
            w.h.fired[i] += 1;
            w.note_fault("alloc:ENOMEM".into());
        }
    }
    if let Some(p) = &spec.log_target() {
        w.h.log = w.vfs.content(p).unwrap_or_default();
    }
    w.count_answers();
    w.h.consumed_lines = w.delivered_lines;
    w.h.torn_character = std::str::from_utf8(&w.unfinished).is_err();
    let _ = w.keep_trace;
    w.h.wall_us = t0.elapsed().as_micros() as u64;
    w.h
}
