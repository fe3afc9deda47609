//! Everything that determines a simulated execution, in serialisable form.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    /// fail with this errno
    Errno(i32),
    /// accept / deliver at most this many bytes
    Short(u32),
    /// a write that accepts nothing
    Zero,
    /// end of file from here on
    Eof,
    /// the process is killed instead of getting an answer
    Kill,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    /// stdin stdout stderr open fread stat readdir realpath logopen logwrite exec spawn rand any
    pub site: String,
    /// only calls concerning this path
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<String>,
    /// n-th matching call, from 1
    pub nth: u32,
    /// also every later matching call
    #[serde(default)]
    pub sticky: bool,
    pub act: Act,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FNode {
    Text(String),
    Bytes(Vec<u8>),
    Dir,
    Link(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ExecOut {
    pub prog: String,
    /// negative: errno of the exec/spawn; otherwise exit code (spawn: also 256+signal)
    pub code: i32,
    #[serde(default)]
    pub out: String,
    #[serde(default)]
    pub err: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Param {
    None,
    Json(String),
    /// the directives answered at a step, re-encoded: seed of key/set order; what to strip; optional subset
    BookOf {
        step: usize,
        seed: u64,
        spans: bool,
        keep: Option<Vec<usize>>,
        /// seed of changes made to the directives; 0: none
        #[serde(default)]
        edits: u64,
    },
    /// spans found in the answer of a step (directives and postings)
    SpansOf { step: usize },
    /// the spans answered by a step which created synthetic spans
    SynthOf { step: usize },
    /// error reports found in the answer of a step
    ErrorsOf { step: usize },
    /// made up reports about locations answered by the steps; bad: percentage of locations which do not exist
    Reports { dirs: usize, synth: Option<usize>, seed: u64, bad: u32 },
}

impl RunSpec {
    pub fn dir(&self) -> &str {
        if self.cwd.is_empty() { "/sim/cwd" } else { &self.cwd }
    }
    /// where the log is
    /// where what is written to the log ends up
    pub fn log_target(&self) -> Option<String> {
        self.log_path().map(|p| if self.log_link { format!("{p}.real") } else { p })
    }
    pub fn log_path(&self) -> Option<String> {
        self.log.as_ref().map(|(p, _, _)| crate::vfs::normalize(&if p.starts_with('/') { p.clone() } else { format!("{}/{p}", self.dir()) }))
    }
}

impl Param {
    /// the steps this one builds on
    pub fn steps(&self) -> Vec<usize> {
        self.clone().steps_mut().into_iter().map(|x| *x).collect()
    }
    pub fn steps_mut(&mut self) -> Vec<&mut usize> {
        match self {
            Param::BookOf { step, .. } | Param::SpansOf { step } | Param::SynthOf { step } | Param::ErrorsOf { step } => vec![step],
            Param::Reports { dirs, synth, .. } => std::iter::once(dirs).chain(synth.as_mut()).collect(),
            Param::None | Param::Json(_) => vec![],
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    /// a line sent verbatim (without its newline)
    Line(Vec<u8>),
    /// bytes without a newline, then end of input
    Tail(Vec<u8>),
    /// a request; id is raw JSON, empty for none; style varies the encoding
    Req { id: String, method: String, param: Param, style: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct RunSpec {
    pub prog: String,
    pub args: Vec<String>,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    #[serde(default)]
    pub cwd: String,
    /// largest piece delivered by one read of standard input (0: all)
    pub frag: u32,
    /// largest piece accepted by one write
    pub wfrag: u32,
    /// largest piece delivered by one read of a file
    pub ffrag: u32,
    /// percentage of interrupted reads and writes
    pub eintr: u32,
    pub seed: u64,
    pub entropy: u64,
    pub pad: u32,
    /// bits 0-2: which standard streams are terminals; 3-9: processors; 10: another user; 12-: process (0: as ever)
    #[serde(default)]
    pub machine: u32,
    pub clock0: i64,
    #[serde(default)]
    pub jumps: Vec<(u32, i64)>,
    /// requests in flight (1: lockstep; 0: unlimited)
    pub window: u32,
    /// what the client sends last lacks its line feed
    #[serde(default)]
    pub bare_end: bool,
    /// how much of the next line a client sends along while it waits
    #[serde(default)]
    pub ahead: u32,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub steps: Vec<Step>,
    #[serde(default)]
    pub exec: Vec<ExecOut>,
    /// changes to the files of the scenario for this run (None: removed)
    #[serde(default)]
    pub files: Vec<(String, Option<FNode>)>,
    /// what becomes of files during the session: at the n-th wait for input after the first answer (None: removed)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub meanwhile: Vec<(u32, String, Option<FNode>)>,
    /// log path and pre-existing content
    #[serde(default)]
    pub log: Option<(String, String, String)>, // path, level, existing
    /// the log is a symbolic link
    #[serde(default)]
    pub log_link: bool,
    /// raw input for tabulate
    #[serde(default)]
    pub input: Option<Vec<u8>>,
}

/// Bytes which are not valid UTF-8 stand in texts as U+F780 to U+F7FF.
pub fn raw_text(b: &[u8]) -> String {
    b.utf8_chunks()
        .map(|c| c.valid().chars().chain(c.invalid().iter().map(|b| char::from_u32(0xF700 + *b as u32).unwrap())).collect::<String>())
        .collect()
}
pub fn raw_bytes(t: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in t.chars() {
        match c as u32 {
            x @ 0xF780..=0xF7FF => v.push(x as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}
pub fn os(t: &str) -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(raw_bytes(t))
}
