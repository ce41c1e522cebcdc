//! Reads cases, runs the real tokenizer / parser on them and writes one JSON trace per case.
//! Usage: harness CASES OUT SKIP TWICE
//!   CASES: lines "<id> <mode> <code>,<code>,..."  (mode lex|file|eval|single|func,
//!   duo: two scanners called in turns, see run_case;
//!   pos: the positions a scanner reports;  buf: source buffers;  part-...: single productions, see run_case;
//!   or at-file|at-eval|at-single|at-func: only the answer and the offset an error names)
//!   OUT:   appended, one JSON line per case;  SKIP: number of cases to skip first
//!   TWICE: 1 = after the run, run all cases again in reverse order and compare the traces
//! A panic is recorded as the event ["P"], a call that does not return as ["H"] (then the process
//! exits with status 3 and the caller restarts after that case); an abort ends the process.
use crate::parser::blocks::Blocks;
use crate::parser::trivias::Trivia;
use crate::parser::nodes::ASTNode;
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::source_buffer::{SourceBuffer, SourceBufferFunctionality};
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::tokens::Token;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[path = "tables.rs"]
mod tables;
use tables::{node_view, token_view};

/// The productions of the parser by name, written for every build by tools/vlib.py.
mod parts { include!(env!("VERIF_PARTS")); }

// ---------------------------------------------------------------------------------------------
// Views over the real values.

pub struct TokView<'a> {
    kind: &'static str,
    span: Option<(u32, u32)>,
    trivia: Option<Vec<&'a Trivia>>,
    text: Vec<u32>,
    prefix: Option<Vec<u32>>,
}

pub trait TriviaList { fn list(&self) -> Vec<&Trivia>; }
impl TriviaList for Trivia { fn list(&self) -> Vec<&Trivia> { vec![self] } }
impl<T: TriviaList + ?Sized> TriviaList for Box<T> { fn list(&self) -> Vec<&Trivia> { (**self).list() } }
impl<T: TriviaList> TriviaList for Vec<T> { fn list(&self) -> Vec<&Trivia> { self.iter().flat_map(|x| x.list()).collect() } }

impl<'a> TokView<'a> {
    pub fn new<L: TriviaList>(kind: &'static str, span: Option<(u32, u32)>, trivia: &'a Option<L>, text: Option<&String>, prefix: Option<&str>) -> Self {
        TokView {
            kind, span,
            trivia: trivia.as_ref().map(|l| l.list()),
            text: text.map(|s| s.chars().map(|c| c as u32).collect()).unwrap_or_default(),
            prefix: prefix.map(|s| s.chars().map(|c| c as u32).collect()),
        }
    }
    pub fn newline<L: TriviaList>(kind: &'static str, span: (u32, u32), trivia: &'a Option<L>, a: char, b: char) -> Self {
        TokView { kind, span: Some(span), trivia: trivia.as_ref().map(|l| l.list()), text: vec![a as u32, b as u32], prefix: None }
    }
    pub fn unknown() -> Self { TokView { kind: "?", span: None, trivia: None, text: vec![], prefix: None } }
}

pub enum Child<'a> { Tok(&'a Token), Node(&'a ASTNode) }

/// Flattens a field of a node into slots: a tuple takes one slot per component, a vector gives
/// every element its index.
pub trait Field {
    const SLOTS: usize;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>);
}
impl Field for Token {
    const SLOTS: usize = 1;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) { out.push((slot, idx, Child::Tok(self))) }
}
impl Field for ASTNode {
    const SLOTS: usize = 1;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) { out.push((slot, idx, Child::Node(self))) }
}
impl<T: Field> Field for Box<T> {
    const SLOTS: usize = T::SLOTS;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) { (**self).walk(slot, idx, out) }
}
impl<T: Field> Field for Option<T> {
    const SLOTS: usize = T::SLOTS;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) { if let Some(x) = self { x.walk(slot, idx, out) } }
}
impl<T: Field> Field for Vec<T> {
    const SLOTS: usize = T::SLOTS;
    fn walk<'a>(&'a self, slot: usize, _idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) { for (i, x) in self.iter().enumerate() { x.walk(slot, i, out) } }
}
impl<A: Field, B: Field> Field for (A, B) {
    const SLOTS: usize = A::SLOTS + B::SLOTS;
    fn walk<'a>(&'a self, slot: usize, idx: usize, out: &mut Vec<(usize, usize, Child<'a>)>) {
        self.0.walk(slot, idx, out);
        self.1.walk(slot + A::SLOTS, idx, out)
    }
}

pub struct NodeView<'a> { kind: &'static str, s: u32, e: u32, slots: usize, kids: Vec<(usize, usize, Child<'a>)> }
impl<'a> NodeView<'a> {
    pub fn new(kind: &'static str, s: u32, e: u32) -> Self { NodeView { kind, s, e, slots: 0, kids: vec![] } }
    pub fn field<F: Field>(mut self, f: &'a F) -> Self {
        f.walk(self.slots, 0, &mut self.kids);
        self.slots += F::SLOTS;
        self
    }
}

// ---------------------------------------------------------------------------------------------
// Traces.

fn codes(out: &mut String, v: &[u32]) {
    out.push('[');
    for (i, c) in v.iter().enumerate() { if i > 0 { out.push(',') } let _ = write!(out, "{}", c); }
    out.push(']');
}

fn token_event(t: &Token) -> (String, Option<u64>) {
    let v = token_view(t);
    let (s, e) = v.span.map(|(a, b)| (a as i64, b as i64)).unwrap_or((-1, -1));
    let mut o = String::new();
    let _ = write!(o, "[\"T\",\"{}\",{},{},", v.kind, s, e);
    codes(&mut o, &v.text);
    o.push(',');
    match &v.prefix { None => o.push_str("[]"), Some(p) => codes(&mut o, p) }
    o.push_str(",[");
    if let Some(l) = &v.trivia {
        if l.is_empty() { o.push_str("[\"EMPTY\",0,0,[]]") }
        for (i, t) in l.iter().enumerate() {
            if i > 0 { o.push(',') }
            let (k, s, e, x): (&str, u32, u32, Vec<u32>) = match t {
                Trivia::WhiteSpace(s, e, c) => ("W", *s, *e, vec![*c as u32]),
                Trivia::Newline(s, e, a, b) => ("NL", *s, *e, vec![*a as u32, *b as u32]),
                Trivia::LineContinuation(s, e, a, b, c) => ("LC", *s, *e, vec![*a as u32, *b as u32, *c as u32]),
                Trivia::Comment(s, e, t) => ("C", *s, *e, t.chars().map(|c| c as u32).collect()),
                #[allow(unreachable_patterns)]
                _ => ("?", 0, 0, vec![]),
            };
            let _ = write!(o, "[\"{}\",{},{},", k, s, e);
            codes(&mut o, &x);
            o.push(']');
        }
    }
    o.push_str("]]");
    let key = match v.kind { "Dedent" => Some(u64::MAX), "Indent" => None, _ => Some(s as u64) };
    (o, key)
}

/// Postorder events of a tree; children in source order (by their first token), whatever order
/// the lists of the node store them in. Returns the offset of the first token.
fn node_events(n: &ASTNode, out: &mut Vec<String>) -> u64 {
    let v = node_view(n);
    let mut parts: Vec<(u64, usize, usize, Vec<String>)> = Vec::new();
    let mut last = 0u64;
    for (slot, idx, k) in &v.kids {
        match k {
            Child::Tok(t) => {
                let (e, key) = token_event(t);
                let key = key.unwrap_or(last);
                parts.push((key, *slot, *idx, vec![e]));
                last = key;
            }
            Child::Node(c) => {
                let mut evs = Vec::new();
                let key = node_events(c, &mut evs);
                parts.push((key, *slot, *idx, evs));
                last = key;
            }
        }
    }
    parts.sort_by_key(|p| p.0);
    let first = parts.first().map(|p| p.0).unwrap_or(u64::MAX - 1);
    let mut e = String::new();
    let _ = write!(e, "[\"N\",\"{}\",{},{},[", v.kind, v.s, v.e);
    for (i, (_, slot, idx, mut evs)) in parts.into_iter().enumerate() {
        if i > 0 { e.push(',') }
        let _ = write!(e, "[{},{}]", slot, idx);
        out.append(&mut evs);
    }
    e.push_str("]]");
    out.push(e);
    first
}

/// The first number in a message, -1 if there is none.
fn offset_in(m: &str) -> i64 {
    let digits: String = m.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().unwrap_or(-1)
}

fn run_case(mode: &str, text: String) -> Vec<String> {
    let mut ev = Vec::new();
    if mode == "lex" {
        let limit = text.chars().count() * 3 + 16;
        let mut lx = PythonCoreTokenizer::new(text);
        loop {
            if ev.len() > limit { ev.push("[\"H\"]".to_string()); break }
            match lx.get_symbol() {
                Ok(t) => {
                    let (e, _) = token_event(&t);
                    let eof = token_view(&t).kind == "EOF";
                    ev.push(e);
                    if eof { break }
                }
                Err(_) => { ev.push("[\"E\"]".to_string()); break }
            }
        }
        return ev;
    }
    if mode == "pos" {
        // The position before the first call and after each one; three calls at the end of the text.
        let limit = text.chars().count() * 3 + 16;
        let mut lx = PythonCoreTokenizer::new(text);
        ev.push(format!("[\"O\",{}]", lx.get_position()));
        let mut ends = 0;
        while ends < 3 && ev.len() < limit {
            let r = lx.get_symbol();
            let (p, q) = (lx.get_position(), lx.get_position());
            match r {
                Ok(t) => {
                    let v = token_view(&t);
                    let (s, e) = v.span.map(|(a, b)| (a as i64, b as i64)).unwrap_or((-1, -1));
                    ev.push(format!("[\"T\",\"{}\",{},{},{},{}]", v.kind, s, e, p, q));
                    if v.kind == "EOF" { ends += 1 }
                }
                Err(_) => { ev.push(format!("[\"E\",{},{}]", p, q)); return ev }
            }
        }
        return ev;
    }
    if mode == "buf" {
        // "<calls>\x1d<text 1>\x1d<text 2>": each call is the number of a buffer and a letter, see Buffer.tla.
        let part: Vec<&str> = text.split('\x1d').collect();
        let mut bufs: Vec<SourceBuffer> = part[1..].iter().map(|t| SourceBuffer::new(t.to_string())).collect();
        let calls: Vec<char> = part[0].chars().collect();
        for c in calls.chunks(2) {
            let b = &mut bufs[c[0].to_digit(10).unwrap() as usize - 1];
            ev.push(match c[1] {
                'a' => { b.advance(); "[]".to_string() }
                'g' => format!("[{}]", b.get_char() as u32),
                'p' => { let (x, y, z) = b.peek_three_chars(); format!("[{},{},{}]", x as u32, y as u32, z as u32) }
                'n' => format!("[{}]", b.get_position()),
                _ => format!("[{}]", b.count()),
            });
        }
        return ev;
    }
    if mode == "duo" {
        // "<calls>\x1d<text 1>\x1d<text 2>": 1 and 2 call the scanners of the two texts, 0 lets a parser read text 2.
        let part: Vec<&str> = text.split('\x1d').collect();
        let mut lx = [PythonCoreTokenizer::new(part[1].to_string()), PythonCoreTokenizer::new(part[2].to_string())];
        for c in part[0].chars() {
            let who = c.to_digit(3).unwrap() as usize;
            if who == 0 {
                let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(part[2].to_string())));
                let _ = p.parse_blocks_file_input();
                ev.push("[\"O\"]".to_string());
                continue;
            }
            match lx[who - 1].get_symbol() {
                Ok(t) => ev.push(token_event(&t).0),
                Err(_) => ev.push("[\"E\"]".to_string()),
            }
        }
        return ev;
    }
    if mode == "joint" {
        // "<calls>\x1d<mode 1>\x1d<text 1>\x1d<mode 2>\x1d<text 2>...": whose parser is called next, and in the end each
        // parser to its end. "#<n>": the first one's like n times before, unrecorded. "*": every parser in a thread of its own, all at the same time, several times over.
        let part: Vec<&str> = text.split('\x1d').collect();
        let mut runs: Vec<Run> = part[1..].chunks(2).map(|p| Run::new(p[0], p[1])).collect();
        if part[0] == "*" {
            let begin = Arc::new(std::sync::Barrier::new(runs.len()));
            let hs: Vec<_> = part[1..].chunks(2).map(|p| {
                let (m, t, begin) = (p[0].to_string(), p[1].to_string(), begin.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    begin.wait();
                    let once = || { let mut r = Run::new(&m, &t); let mut o = Vec::new(); while let Some(e) = r.step() { o.push(e) } o };
                    let first = once();
                    (0..60).map(|_| once()).find(|o| *o != first).unwrap_or(first)
                }).unwrap()
            }).collect();
            for (k, h) in hs.into_iter().enumerate() {
                match h.join() {
                    Ok(a) => for e in a { ev.push(format!("[{},{}]", k + 1, e)) },
                    Err(_) => { ev.push("[\"P\"]".to_string()); return ev }
                }
            }
            return ev;
        }
        if let Some(n) = part[0].strip_prefix('#') {
            for _ in 0..n.parse::<usize>().unwrap() { let mut r = Run::new(part[1], part[2]); while r.step().is_some() { } }
        }
        for c in part[0].trim_start_matches(|c: char| c == '#' || c.is_ascii_digit()).chars() {
            let k = c as usize - 'A' as usize;
            if let Some(e) = runs[k].step() { ev.push(format!("[{},{}]", k + 1, e)) }
        }
        for k in 0..runs.len() {
            while let Some(e) = runs[k].step() { ev.push(format!("[{},{}]", k + 1, e)) }
        }
        return ev;
    }
    if let Some(rest) = mode.strip_prefix("part-") {
        // "part-<n>-<productions>": reads n tokens, then calls the productions one after the other.
        let (skip, names) = rest.split_once('-').unwrap();
        let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text)));
        for _ in 0..=skip.parse::<usize>().unwrap() { p.advance() }
        for name in names.split(',') {
            match parts::call(&mut p, name) {
                Some(Ok(t)) => { node_events(&t, &mut ev); }
                Some(Err(_)) => { ev.push("[\"E\"]".to_string()); return ev }
                None => { ev.push("[\"U\"]".to_string()); return ev }
            }
        }
        ev.push("[\"O\"]".to_string());
        match p.lexer.get_symbol() {
            Ok(t) => ev.push(token_event(&t).0),
            Err(_) => ev.push("[\"E\"]".to_string()),
        }
        return ev;
    }
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text)));
    let place = mode.starts_with("at-");
    let r = match mode.trim_start_matches("at-") {
        "file" => p.parse_blocks_file_input(),
        "eval" => p.parse_blocks_eval_input(),
        "single" => p.parse_blocks_single_input(),
        "func" => p.parse_blocks_func_type_input(),
        _ => panic!("unknown mode"),
    };
    match r {
        Ok(_) if place => ev.push("[\"O\"]".to_string()),
        Err(m) if place => ev.push(format!("[\"E\",{}]", offset_in(&m))),
        Ok(t) => { node_events(&t, &mut ev); }
        Err(_) => ev.push("[\"E\"]".to_string()),
    }
    ev
}

/// A parser that is called step by step: an entry point, or productions one after the other (see "part-").
struct Run { mode: String, text: String, calls: Vec<String>, next: usize, parser: Option<PythonCoreParser> }

impl Run {
    fn new(mode: &str, text: &str) -> Run {
        let mut calls = Vec::new();
        match mode.strip_prefix("part-").and_then(|r| r.split_once('-')) {
            Some((_, names)) => { calls.push("+".to_string()); calls.extend(names.split(',').map(|s| s.to_string())); calls.push("-".to_string()) }
            None => calls.push("!".to_string()),
        }
        Run { mode: mode.to_string(), text: text.to_string(), calls, next: 0, parser: None }
    }

    /// The answer of the next call, if there is one.
    fn step(&mut self) -> Option<String> {
        let call = self.calls.get(self.next)?.clone();
        self.next += 1;
        let mut ev = Vec::new();
        if call == "!" {
            ev = run_case(&self.mode, self.text.clone());
        } else if call == "+" {
            let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(self.text.clone())));
            let skip: usize = self.mode.split('-').nth(1).unwrap().parse().unwrap();
            for _ in 0..=skip { p.advance() }
            self.parser = Some(p);
        } else if call == "-" {
            ev.push("[\"O\"]".to_string());
            match self.parser.as_mut().unwrap().lexer.get_symbol() {
                Ok(t) => ev.push(token_event(&t).0),
                Err(_) => ev.push("[\"E\"]".to_string()),
            }
        } else {
            match parts::call(self.parser.as_mut().unwrap(), &call) {
                Some(Ok(t)) => { node_events(&t, &mut ev); }
                Some(Err(_)) => { ev.push("[\"E\"]".to_string()); self.next = self.calls.len() }
                None => { ev.push("[\"U\"]".to_string()); self.next = self.calls.len() }
            }
        }
        Some(format!("[{}]", ev.join(",")))
    }
}

struct Case { id: String, mode: String, codes: String, text: String }

fn render(c: &Case) -> String {
    let text = c.text.clone();
    let mode = c.mode.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || run_case(&mode, text)));
    let ev = r.unwrap_or_else(|_| vec!["[\"P\"]".to_string()]);
    format!("{{\"id\":{},\"mode\":\"{}\",\"inp\":[{}],\"ev\":[{}]}}\n", c.id, c.mode, c.codes, ev.join(","))
}

/// FNV-1a, folded to 24 bits, of the fields of the events that the masks select.
fn digest(ev: &[String], tmask: u32, nmask: u32) -> u32 {
    let mut h: u64 = 0xcbf29ce484222325;
    for e in ev {
        let e = e.as_bytes();
        let mask = match e[2] { b'T' => tmask, b'N' => nmask, _ => !0 };
        let (mut depth, mut field) = (0, 0);
        for &b in &e[1..] {
            match b {
                b'[' => depth += 1,
                b']' => depth -= 1,
                b',' if depth == 0 => field += 1,
                _ => (),
            }
            if mask >> field & 1 == 1 { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        }
        h = (h ^ 10).wrapping_mul(0x100000001b3);
    }
    ((h ^ h >> 24 ^ h >> 48) & 0xffffff) as u32
}

/// Usage: harness digest LIBRARY FROM TO OUT STACK LIMIT TMASK NMASK
/// LIBRARY: lines "<l|f|e|s|t>" or "p<n>-<productions> ", then "<text with \\n, \\r and \\\\ escaped>"; for each line
/// FROM..TO the digest of its trace and the letter of the last event are appended to OUT, four bytes.
/// Exit status 3: the next one does not return.
fn digests(args: &[String]) -> i32 {
    let (from, to): (usize, usize) = (args[3].parse().unwrap(), args[4].parse().unwrap());
    let (stack, limit): (usize, u64) = (args[6].parse().unwrap(), args[7].parse().unwrap());
    let (tmask, nmask): (u32, u32) = (args[8].parse().unwrap(), args[9].parse().unwrap());
    let data = std::fs::read_to_string(&args[2]).expect("library");
    let cases: Vec<(String, String)> = data.split('\n').skip(from).take(to - from).map(|l| {
        let (mut mode, mut l) = (String::new(), l);
        if let Some((m, t)) = l.strip_prefix('p').and_then(|x| x.split_once(' ')) { mode = format!("part-{}", m); l = t }
        else {
            mode.push_str(match l.as_bytes()[0] { b'l' => "lex", b'f' => "file", b'e' => "eval", b's' => "single", b't' => "func",
            b'F' => "at-file", b'E' => "at-eval", b'S' => "at-single", b'T' => "at-func", _ => panic!("mode") });
            l = &l[1..];
        }
        let mut text = String::new();
        let mut it = l.chars();
        while let Some(c) = it.next() {
            text.push(if c == '\\' { match it.next() { Some('n') => '\n', Some('r') => '\r', Some(x) => x, None => '\\' } } else { c });
        }
        (mode, text)
    }).collect();
    drop(data);
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[5]).expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    let done = Arc::new(AtomicUsize::new(0));
    let d2 = done.clone();
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        for (mode, text) in cases {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || run_case(&mode, text)));
            let ev = r.unwrap_or_else(|_| vec!["[\"P\"]".to_string()]);
            let mut rec = digest(&ev, tmask, nmask).to_le_bytes();
            rec[3] = ev.last().map(|e| e.as_bytes()[2]).unwrap_or(b'?');
            out.write_all(&rec).unwrap();
            d2.fetch_add(1, Ordering::SeqCst);
        }
    }).unwrap();
    let (mut seen, mut since) = (0usize, Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(2));
        let d = done.load(Ordering::SeqCst);
        if d != seen { seen = d; since = Instant::now() }
        if since.elapsed() > Duration::from_secs(limit) { return 3 }
    }
    if h.join().is_err() { return 4 }
    0
}

pub fn run() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 10 && args[1] == "digest" { return digests(&args) }
    if args.len() < 5 { eprintln!("usage: harness CASES OUT SKIP TWICE"); return 2 }
    let skip: usize = args[3].parse().unwrap();
    let twice = args[4] == "1";
    let stack: usize = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(256 << 20);
    let limit: u64 = args.get(6).and_then(|s| s.parse().ok()).unwrap_or(20);
    let data = std::fs::read_to_string(&args[1]).expect("cases");
    let cases: Vec<Case> = data.lines().skip(skip).map(|l| {
        let mut f = l.splitn(3, ' ');
        let id = f.next().unwrap().to_string();
        let mode = f.next().unwrap().to_string();
        let codes = f.next().unwrap_or("").to_string();
        let text = codes.split(',').filter(|s| !s.is_empty()).map(|s| char::from_u32(s.parse().unwrap()).unwrap()).collect();
        Case { id, mode, codes, text }
    }).collect();
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    let done = Arc::new(AtomicUsize::new(0));
    let (d2, cases) = (done.clone(), Arc::new(cases));
    let (c2, mut o2) = (cases.clone(), out.try_clone().unwrap());
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let mut lines: Vec<String> = Vec::new();
        for c in c2.iter() {
            let l = render(c);
            o2.write_all(l.as_bytes()).unwrap();
            if twice { lines.push(l) }
            d2.fetch_add(1, Ordering::SeqCst);
        }
        if twice {
            for (c, l) in c2.iter().zip(lines.iter()).rev() {
                if &render(c) != l {
                    o2.write_all(format!("{{\"differs\":{}}}\n", c.id).as_bytes()).unwrap();
                }
                d2.fetch_add(1, Ordering::SeqCst);
            }
        }
    }).unwrap();
    // Watchdog: a call that does not come back within the limit is recorded as not ending.
    let (mut seen, mut since) = (0usize, Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(2));
        let d = done.load(Ordering::SeqCst);
        if d != seen { seen = d; since = Instant::now() }
        if since.elapsed() > Duration::from_secs(limit) {
            if let Some(c) = cases.get(d) {
                let _ = out.write_all(format!("{{\"id\":{},\"mode\":\"{}\",\"inp\":[{}],\"ev\":[[\"H\"]]}}\n", c.id, c.mode, c.codes).as_bytes());
            }
            return 3;
        }
    }
    if h.join().is_err() { return 4 }
    0
}
