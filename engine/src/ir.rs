//! Parser and linker for textual LLVM IR (the subset rustc emits for scalar code).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Rc<Ty>),
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) | Ty::Float(n) => *n,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().min(32),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            Ty::Void | Ty::Meta => 1,
        }
    }
    /// store size
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = n * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Struct(..) => {
                let (_, s) = self.struct_layout();
                s
            }
            Ty::Void | Ty::Meta => 0,
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0u64;
            let mut v = Vec::new();
            for t in f {
                if !*packed {
                    let a = t.align();
                    off = (off + a - 1) / a * a;
                }
                v.push(off);
                off += t.size();
            }
            let a = self.align();
            off = (off + a - 1) / a * a;
            (v, off)
        } else {
            panic!()
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Null,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    Splat(Box<(Ty, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Operand {
    Local(u32),
    Const(u32), // index into function constant table (ty, cst)
}

#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Debug, Copy, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Operand), Fn(u32), Ext(u32) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Operand, Operand),
    ICmp(Pred, Ty, Operand, Operand),
    Cast(CastOp, Ty, Operand, Ty),
    Select(Ty, Operand, Ty, Operand, Operand), // cond type first
    Gep(Operand, u64, Vec<(Operand, u32, u64)>), // base, const offset, (index, idx bits, scale)
    Load(Ty, Operand),
    Store(Ty, Operand, Operand),
    Alloca(u64, Option<Operand>),
    Call(Ty, Callee, Vec<(Ty, Operand)>),
    Phi(Ty, Vec<(Operand, u32)>), // (value, pred block)
    ExtractValue(Operand, Vec<u32>),
    InsertValue(Operand, Ty, Operand, Vec<u32>, Ty),
    ExtractElem(Operand, Operand),
    InsertElem(Ty, Operand, Operand, Operand),
    Shuffle(Ty, Operand, Operand, Vec<i32>),
    Freeze(Operand),
    Fence,
    AtomicRmw(String, Ty, Operand, Operand),
    CmpXchg(Ty, Operand, Operand, Operand),
    Ret(Option<(Ty, Operand)>),
    Br(u32),
    CondBr(Operand, u32, u32),
    Switch(Ty, Operand, u32, Vec<(u128, u32)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<(Option<u32>, Inst)>, // dest local
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub nlocals: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, Cst)>,
    pub module: usize,
    pub local_names: Vec<String>,
    pub internal: bool,
}

#[derive(Debug)]
pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
    pub internal: bool,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<GlobalDef>,
    pub funcs: Vec<Func>,
    pub declares: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub aliases: Vec<(String, Cst)>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Ellipsis,
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> {
        let mut v = Vec::new();
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(b, &mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) { i += 1; }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && is_id(b[i]) { i += 1; }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && is_id(b[i]) { i += 1; }
                out.push(Tok::Attr(s[st..i].to_string()));
            }
            b'"' => {
                let v = quoted(b, &mut i);
                out.push(Tok::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = quoted(b, &mut i);
                out.push(Tok::CStr(v));
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                out.push(Tok::Ellipsis);
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' ) { i += 1; }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < b.len() && is_id(b[i]) { i += 1; }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

// ---------------------------------------------------------------- parser
struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    line: &'a str,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or_else(|| format!("unexpected end: {}", self.line))?;
        self.i += 1;
        Ok(t)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) { self.i += 1; true } else { false }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Some(Tok::Word(x)) = self.peek() { if x == w { self.i += 1; return true; } }
        false
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at tok {} in: {}", c, self.i, self.line)) }
    }
    fn err<T>(&self, m: &str) -> R<T> { Err(format!("{} at {:?} in: {}", m, self.peek(), self.line)) }

    fn skip_parens(&mut self) -> R<()> {
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                (w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1)
                    || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "opaque" | "x86_fp80" | "fp128")
            }
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.types.contains_key(n),
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Word(w) => {
                if w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()) {
                    return Ok(Ty::Int(w[1..].parse().unwrap()));
                }
                match w.as_str() {
                    "ptr" => {
                        if self.eatw("addrspace") { self.skip_parens()?; }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::Float(32)),
                    "double" => Ok(Ty::Float(64)),
                    "half" => Ok(Ty::Float(16)),
                    "metadata" | "label" | "token" | "opaque" => Ok(Ty::Meta),
                    _ => Err(format!("type? {} in {}", w, self.line)),
                }
            }
            Tok::P('[') => {
                let n = self.num()? as u64;
                if !self.eatw("x") { return self.err("expected x"); }
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Ty::Array(n, Rc::new(t)))
            }
            Tok::P('{') => {
                let mut v = Vec::new();
                if !self.eat('}') {
                    loop {
                        v.push(self.ty()?);
                        if self.eat('}') { break; }
                        self.expect(',')?;
                    }
                }
                Ok(Ty::Struct(v, false))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = Vec::new();
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty()?);
                            if self.eat('}') { break; }
                            self.expect(',')?;
                        }
                    }
                    self.expect('>')?;
                    Ok(Ty::Struct(v, true))
                } else {
                    let n = self.num()? as u64;
                    if !self.eatw("x") { return self.err("expected x"); }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ok(Ty::Vector(n, Rc::new(t)))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n)),
            t => Err(format!("type? {:?} in {}", t, self.line)),
        }
    }

    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => parse_num(&s).ok_or_else(|| format!("num {}", s)).map(|x| x as i128),
            t => Err(format!("num? {:?} in {}", t, self.line)),
        }
    }

    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.next()? {
            Tok::Num(s) => {
                let v = parse_num(&s).ok_or_else(|| format!("const num {} in {}", s, self.line))?;
                Ok(Cst::Int(v))
            }
            Tok::CStr(v) => Ok(Cst::Bytes(v)),
            Tok::Global(g) => Ok(Cst::Global(g)),
            Tok::P('[') => self.cst_list(']'),
            Tok::P('{') => self.cst_list('}'),
            Tok::P('<') => {
                if self.eat('{') {
                    let c = self.cst_list('}')?;
                    self.expect('>')?;
                    Ok(c)
                } else {
                    self.cst_list('>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Cst::Int(1)),
                "false" => Ok(Cst::Int(0)),
                "null" => Ok(Cst::Null),
                "undef" | "poison" => Ok(Cst::Undef),
                "zeroinitializer" => Ok(Cst::Zero),
                "getelementptr" => {
                    while let Some(Tok::Word(w)) = self.peek() {
                        if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") { self.i += 1; }
                        else if w == "inrange" { self.i += 1; self.skip_parens()?; }
                        else { break; }
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let bt = self.ty()?;
                    let base = self.cst(&bt)?;
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        let it = self.ty()?;
                        let c = self.cst(&it)?;
                        idx.push((it, c));
                    }
                    self.expect(')')?;
                    Ok(Cst::Gep(t, Box::new(base), idx))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while matches!(self.peek(), Some(Tok::Word(w)) if w == "nuw" || w == "nsw" || w == "nneg") { self.i += 1; }
                    self.expect('(')?;
                    let ft = self.ty()?;
                    let c = self.cst(&ft)?;
                    if !self.eatw("to") { return self.err("expected to"); }
                    let tt = self.ty()?;
                    self.expect(')')?;
                    Ok(Cst::Cast(w, ft, Box::new(c), tt))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while matches!(self.peek(), Some(Tok::Word(w)) if w == "nuw" || w == "nsw") { self.i += 1; }
                    self.expect('(')?;
                    let ft = self.ty()?;
                    let a = self.cst(&ft)?;
                    self.expect(',')?;
                    let ft2 = self.ty()?;
                    let b = self.cst(&ft2)?;
                    self.expect(')')?;
                    Ok(Cst::Bin(w, ft, Box::new(a), Box::new(b)))
                }
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.expect(')')?;
                    Ok(Cst::Splat(Box::new((t, c))))
                }
                "dso_local_equivalent" | "no_cfi" => {
                    self.cst(ty)
                }
                _ => self.err(&format!("const {}", w)),
            },
            t => Err(format!("const? {:?} in {}", t, self.line)),
        }
    }
    fn cst_list(&mut self, end: char) -> R<Cst> {
        let mut v = Vec::new();
        if self.eat(end) { return Ok(Cst::Agg(v)); }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat(end) { break; }
            self.expect(',')?;
        }
        Ok(Cst::Agg(v))
    }
}

fn parse_num(s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(n) = s.strip_prefix('-') {
        return n.parse::<u128>().ok().map(|x| (x as i128).wrapping_neg() as u128);
    }
    if s.starts_with("0x") || s.contains('.') || s.contains('e') {
        return Some(0); // floating point constant: unsupported, only seen in dead formatting code
    }
    s.parse::<u128>().ok()
}

struct FnBuilder {
    locals: HashMap<String, u32>,
    local_names: Vec<String>,
    blocks: HashMap<String, u32>,
    consts: Vec<(Ty, Cst)>,
}

impl FnBuilder {
    fn local(&mut self, n: &str) -> u32 {
        if let Some(x) = self.locals.get(n) { return *x; }
        let k = self.local_names.len() as u32;
        self.locals.insert(n.to_string(), k);
        self.local_names.push(n.to_string());
        k
    }
    fn block(&mut self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or_else(|| format!("unknown block {}", n))
    }
    fn operand(&mut self, p: &mut P, ty: &Ty) -> R<Operand> {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Ok(Operand::Local(self.local(&n)));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip until , or )
            let mut d = 0;
            while let Some(t) = p.peek() {
                match t {
                    Tok::P('(') => d += 1,
                    Tok::P(')') if d == 0 => break,
                    Tok::P(')') => d -= 1,
                    Tok::P(',') if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            self.consts.push((Ty::Int(64), Cst::Undef));
            return Ok(Operand::Const(self.consts.len() as u32 - 1));
        }
        let c = p.cst(ty)?;
        self.consts.push((ty.clone(), c));
        Ok(Operand::Const(self.consts.len() as u32 - 1))
    }
    fn typed(&mut self, p: &mut P) -> R<(Ty, Operand)> {
        let t = p.ty()?;
        let o = self.operand(p, &t)?;
        Ok((t, o))
    }
}

const PARAM_ATTRS: &[&str] = &[
    "noundef", "nonnull", "readonly", "readnone", "writeonly", "noalias", "nocapture", "zeroext", "signext",
    "inreg", "returned", "immarg", "nofree", "dead_on_unwind", "writable", "swiftself", "noreturn", "nounwind", "allocptr", "nest", "dead_on_return", "noext", "allocalign",
];
const PARAM_ATTRS_P: &[&str] = &["align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "elementtype", "nofpclass", "memory", "preallocated", "byref", "dead_on_return"];

fn skip_param_attrs(p: &mut P) -> R<()> {
    loop {
        match p.peek() {
            Some(Tok::Word(w)) => {
                let w = w.clone();
                if PARAM_ATTRS_P.contains(&w.as_str()) {
                    p.i += 1;
                    if let Some(Tok::P('(')) = p.peek() { p.skip_parens()?; }
                    else if let Some(Tok::Num(_)) = p.peek() { p.i += 1; }
                } else if PARAM_ATTRS.contains(&w.as_str()) {
                    p.i += 1;
                } else { return Ok(()); }
            }
            Some(Tok::Str(_)) => {
                p.i += 1;
                if p.eat('=') { p.i += 1; }
            }
            _ => return Ok(()),
        }
    }
}

pub fn parse_module(text: &str, mid: usize) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = text.lines().collect();
    let mut li = 0;

    // named types first
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let mut p = P { t: lex(l), i: 0, types: &m.types, line: l };
            if let Tok::Local(n) = p.next()? {
                p.expect('=')?;
                p.eatw("type");
                let t = p.ty()?;
                m.types.insert(n, t);
            }
        }
    }

    let types = std::mem::take(&mut m.types);
    while li < lines.len() {
        let l = lines[li];
        li += 1;
        if l.starts_with('@') {
            let mut p = P { t: lex(l), i: 0, types: &types, line: l };
            let name = match p.next()? { Tok::Global(n) => n, _ => return Err("global".into()) };
            p.expect('=')?;
            let mut external = false;
            let mut internal = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match p.next()? {
                    Tok::Word(w) => match w.as_str() {
                        "external" | "extern_weak" => external = true,
                        "private" | "internal" => internal = true,
                        "global" => break,
                        "constant" => { constant = true; break; }
                        "alias" => { alias = true; break; }
                        "addrspace" | "thread_local" => { if let Some(Tok::P('(')) = p.peek() { p.skip_parens()?; } }
                        _ => {}
                    },
                    t => return Err(format!("global {:?} in {}", t, l)),
                }
            }
            let ty = p.ty()?;
            if alias {
                p.expect(',')?;
                let t2 = p.ty()?;
                let c = p.cst(&t2)?;
                m.aliases.push((name, c));
                continue;
            }
            let init = if external { None } else { Some(p.cst(&ty)?) };
            let mut align = ty.align();
            while p.i < p.t.len() {
                if p.eatw("align") { align = p.num()? as u64; break; }
                p.i += 1;
            }
            m.globals.push(GlobalDef { name, ty, init, constant, align, internal });
        } else if l.starts_with("declare ") {
            for t in lex(l) {
                if let Tok::Global(n) = t { m.declares.push(n); break; }
            }
        } else if l.starts_with("define ") {
            let mut body = Vec::new();
            let head = l;
            while lines[li] != "}" {
                body.push(lines[li]);
                li += 1;
            }
            li += 1;
            m.funcs.push(parse_func(head, &body, &types, mid)?);
        }
    }
    m.types = types;
    Ok(m)
}

fn parse_func(head: &str, body: &[&str], types: &HashMap<String, Ty>, mid: usize) -> R<Func> {
    let mut p = P { t: lex(head), i: 1, types, line: head };
    let mut fb = FnBuilder { locals: HashMap::new(), local_names: vec![], blocks: HashMap::new(), consts: vec![] };
    let mut internal = false;
    // return type etc.
    while !matches!(p.peek(), Some(Tok::Global(_))) {
        if let Some(Tok::Word(w)) = p.peek() { if w == "internal" || w == "private" { internal = true; } }
        p.i += 1;
        if p.i >= p.t.len() { return Err(format!("func head {}", head)); }
    }
    let name = match p.next()? { Tok::Global(n) => n, _ => unreachable!() };
    p.expect('(')?;
    let mut params = Vec::new();
    if !p.eat(')') {
        loop {
            if p.peek() == Some(&Tok::Ellipsis) { p.i += 1; p.expect(')')?; break; }
            let t = p.ty()?;
            skip_param_attrs(&mut p)?;
            match p.next()? {
                Tok::Local(n) => { let k = fb.local(&n); params.push((t, k)); }
                t => return Err(format!("param {:?} in {}", t, head)),
            }
            if p.eat(')') { break; }
            p.expect(',')?;
        }
    }
    // collect blocks
    let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
    let mut i = 0;
    while i < body.len() {
        let l = body[i];
        i += 1;
        if l.is_empty() { continue; }
        if !l.starts_with(' ') && !l.starts_with(';') {
            // label
            let lab = l.split(';').next().unwrap().trim();
            let lab = lab.strip_suffix(':').ok_or_else(|| format!("label? {}", l))?;
            let lab = lab.trim_matches('"').to_string();
            blocks.push((lab, vec![]));
            continue;
        }
        let tr = l.trim_start();
        if tr.is_empty() || tr.starts_with(';') || tr.starts_with('#') { continue; }
        if blocks.is_empty() {
            // unlabelled entry
            blocks.push((format!("{}", params.len()), vec![]));
        }
        let mut s = l.to_string();
        if tr.starts_with("switch ") {
            while !s.contains(']') {
                s.push(' ');
                s.push_str(body[i]);
                i += 1;
            }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    for (k, (n, _)) in blocks.iter().enumerate() { fb.blocks.insert(n.clone(), k as u32); }
    let mut out = Vec::new();
    for (n, ls) in &blocks {
        let mut insts = Vec::new();
        for l in ls {
            let mut p = P { t: lex(l), i: 0, types, line: l };
            let dest = if let (Some(Tok::Local(d)), Some(Tok::P('='))) = (p.t.get(0), p.t.get(1)) {
                let d = d.clone();
                p.i = 2;
                Some(fb.local(&d))
            } else { None };
            let inst = match parse_inst(&mut p, &mut fb) {
                Ok(x) => x,
                Err(e) => Inst::Unsupported(e),
            };
            insts.push((dest, inst));
        }
        out.push(Block { name: n.clone(), insts });
    }
    Ok(Func { name, params, nlocals: fb.local_names.len() as u32, blocks: out, consts: fb.consts, module: mid, local_names: fb.local_names, internal })
}

fn parse_inst(p: &mut P, fb: &mut FnBuilder) -> R<Inst> {
    let mut w = match p.next()? { Tok::Word(w) => w, t => return Err(format!("inst {:?} in {}", t, p.line)) };
    if matches!(w.as_str(), "tail" | "musttail" | "notail") {
        w = match p.next()? { Tok::Word(w) => w, _ => return Err("call".into()) };
    }
    let skip_flags = |p: &mut P| {
        while let Some(Tok::Word(w)) = p.peek() {
            if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.i += 1; } else { break; }
        }
    };
    let bin = match w.as_str() {
        "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem),
        "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr),
        "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor),
        _ => None,
    };
    if let Some(b) = bin {
        skip_flags(p);
        let (t, a) = fb.typed(p)?;
        p.expect(',')?;
        let c = fb.operand(p, &t)?;
        return Ok(Inst::Bin(b, t, a, c));
    }
    let cast = match w.as_str() {
        "trunc" => Some(CastOp::Trunc), "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt),
        "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt), "inttoptr" => Some(CastOp::IntToPtr), "bitcast" => Some(CastOp::BitCast),
        _ => None,
    };
    if let Some(c) = cast {
        skip_flags(p);
        let (t, a) = fb.typed(p)?;
        if !p.eatw("to") { return p.err("to"); }
        let t2 = p.ty()?;
        return Ok(Inst::Cast(c, t, a, t2));
    }
    match w.as_str() {
        "icmp" => {
            skip_flags(p);
            let pr = match p.next()? { Tok::Word(w) => w, _ => return p.err("pred") };
            let pr = match pr.as_str() {
                "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return p.err("pred"),
            };
            let (t, a) = fb.typed(p)?;
            p.expect(',')?;
            let c = fb.operand(p, &t)?;
            Ok(Inst::ICmp(pr, t, a, c))
        }
        "select" => {
            skip_flags(p);
            let (ct, c) = fb.typed(p)?;
            p.expect(',')?;
            let (t, a) = fb.typed(p)?;
            p.expect(',')?;
            let (_, b) = fb.typed(p)?;
            Ok(Inst::Select(ct, c, t, a, b))
        }
        "getelementptr" => {
            skip_flags(p);
            let mut t = p.ty()?;
            p.expect(',')?;
            let bt = p.ty()?;
            if !matches!(bt, Ty::Ptr) { return p.err("vector gep"); }
            let base = fb.operand(p, &bt)?;
            let mut off = 0u64;
            let mut idx = Vec::new();
            let mut first = true;
            while p.eat(',') {
                if matches!(p.peek(), Some(Tok::Meta(_))) { break; }
                let it = p.ty()?;
                let o = fb.operand(p, &it)?;
                let scale;
                if first {
                    scale = t.size();
                    first = false;
                } else {
                    match t.clone() {
                        Ty::Array(_, e) | Ty::Vector(_, e) => { scale = e.size(); t = (*e).clone(); }
                        Ty::Struct(f, _) => {
                            let k = match &o {
                                Operand::Const(c) => match &fb.consts[*c as usize].1 { Cst::Int(k) => *k as usize, Cst::Zero => 0, _ => return p.err("struct idx") },
                                _ => return p.err("struct idx"),
                            };
                            let (offs, _) = t.struct_layout();
                            off = off.wrapping_add(offs[k]);
                            t = f[k].clone();
                            continue;
                        }
                        _ => return p.err("gep type"),
                    }
                }
                if let Operand::Const(c) = &o {
                    if let Cst::Int(k) = &fb.consts[*c as usize].1 {
                        let b = it.bits();
                        let k = sext(*k, b);
                        off = off.wrapping_add((k as u64).wrapping_mul(scale));
                        continue;
                    }
                }
                idx.push((o, it.bits(), scale));
            }
            Ok(Inst::Gep(base, off, idx))
        }
        "load" => {
            skip_flags(p);
            let t = p.ty()?;
            p.expect(',')?;
            let (_, a) = fb.typed(p)?;
            Ok(Inst::Load(t, a))
        }
        "store" => {
            skip_flags(p);
            let (t, v) = fb.typed(p)?;
            p.expect(',')?;
            let (_, a) = fb.typed(p)?;
            Ok(Inst::Store(t, v, a))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut cnt = None;
            if p.eat(',') {
                if p.is_type_start() {
                    let (_, o) = fb.typed(p)?;
                    cnt = Some(o);
                }
            }
            Ok(Inst::Alloca(t.size(), cnt))
        }
        "call" => {
            // attributes
            loop {
                skip_flags(p);
                match p.peek() {
                    Some(Tok::Word(w)) => {
                        let w = w.clone();
                        if w == "range" || w == "align" || w == "dereferenceable" || w == "dereferenceable_or_null" || w == "nofpclass" {
                            p.i += 1;
                            if let Some(Tok::P('(')) = p.peek() { p.skip_parens()?; } else { p.i += 1; }
                        } else if w.starts_with("cc") || matches!(w.as_str(), "fastcc" | "coldcc" | "ccc" | "noundef" | "zeroext" | "signext" | "nonnull" | "noalias" | "inreg" | "preserve_mostcc" | "preserve_allcc") {
                            p.i += 1;
                        } else { break; }
                    }
                    _ => break,
                }
            }
            let rt = p.ty()?;
            // possible full function type "(...)": `call i32 (ptr, ...) @f(`
            if let Some(Tok::P('(')) = p.peek() { p.skip_parens()?; }
            let callee = match p.next()? {
                Tok::Global(g) => Callee::Direct(g),
                Tok::Local(l) => Callee::Indirect(Operand::Local(fb.local(&l))),
                Tok::Word(w) if w == "asm" => {
                    // inline asm: `call T asm sideeffect "", "..."(args)`: compiler barriers only
                    while !matches!(p.peek(), Some(Tok::P('('))) { p.i += 1; if p.i >= p.t.len() { return p.err("asm"); } }
                    Callee::Direct("__asm".into())
                }
                t => return Err(format!("callee {:?} in {}", t, p.line)),
            };
            p.expect('(')?;
            let mut args = Vec::new();
            if !p.eat(')') {
                loop {
                    let t = p.ty()?;
                    skip_param_attrs(p)?;
                    let o = fb.operand(p, &t)?;
                    args.push((t, o));
                    if p.eat(')') { break; }
                    p.expect(',')?;
                }
            }
            Ok(Inst::Call(rt, callee, args))
        }
        "phi" => {
            skip_flags(p);
            let t = p.ty()?;
            let mut v = Vec::new();
            loop {
                p.expect('[')?;
                let o = fb.operand(p, &t)?;
                p.expect(',')?;
                let b = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("phi") };
                p.expect(']')?;
                v.push((o, b));
                if !p.eat(',') { break; }
                if matches!(p.peek(), Some(Tok::Meta(_))) { break; }
            }
            Ok(Inst::Phi(t, v))
        }
        "extractvalue" => {
            let (_, a) = fb.typed(p)?;
            let mut ix = Vec::new();
            while p.eat(',') { if matches!(p.peek(), Some(Tok::Meta(_))) { break; } ix.push(p.num()? as u32); }
            Ok(Inst::ExtractValue(a, ix))
        }
        "insertvalue" => {
            let (t, a) = fb.typed(p)?;
            p.expect(',')?;
            let (vt, v) = fb.typed(p)?;
            let mut ix = Vec::new();
            while p.eat(',') { if matches!(p.peek(), Some(Tok::Meta(_))) { break; } ix.push(p.num()? as u32); }
            Ok(Inst::InsertValue(a, vt, v, ix, t))
        }
        "extractelement" => {
            let (_, a) = fb.typed(p)?;
            p.expect(',')?;
            let (_, i) = fb.typed(p)?;
            Ok(Inst::ExtractElem(a, i))
        }
        "insertelement" => {
            let (t, a) = fb.typed(p)?;
            p.expect(',')?;
            let (_, v) = fb.typed(p)?;
            p.expect(',')?;
            let (_, i) = fb.typed(p)?;
            Ok(Inst::InsertElem(t, a, v, i))
        }
        "shufflevector" => {
            let (t, a) = fb.typed(p)?;
            p.expect(',')?;
            let (_, b) = fb.typed(p)?;
            p.expect(',')?;
            let mt = p.ty()?;
            let c = p.cst(&mt)?;
            let n = match mt { Ty::Vector(n, _) => n, _ => return p.err("mask") };
            let mask = match c {
                Cst::Zero => vec![0; n as usize],
                Cst::Undef => vec![-1; n as usize],
                Cst::Splat(b) => match b.1 { Cst::Int(k) => vec![k as i32; n as usize], _ => return p.err("mask") },
                Cst::Agg(v) => v.iter().map(|(_, c)| match c { Cst::Int(k) => *k as i32, _ => -1 }).collect(),
                _ => return p.err("mask"),
            };
            Ok(Inst::Shuffle(t, a, b, mask))
        }
        "freeze" => {
            let (_, a) = fb.typed(p)?;
            Ok(Inst::Freeze(a))
        }
        "fence" => Ok(Inst::Fence),
        "atomicrmw" => {
            skip_flags(p);
            let op = match p.next()? { Tok::Word(w) => w, _ => return p.err("rmw") };
            let (_, a) = fb.typed(p)?;
            p.expect(',')?;
            let (t, v) = fb.typed(p)?;
            Ok(Inst::AtomicRmw(op, t, a, v))
        }
        "cmpxchg" => {
            p.eatw("weak");
            skip_flags(p);
            let (_, a) = fb.typed(p)?;
            p.expect(',')?;
            let (t, e) = fb.typed(p)?;
            p.expect(',')?;
            let (_, n) = fb.typed(p)?;
            Ok(Inst::CmpXchg(t, a, e, n))
        }
        "ret" => {
            if p.eatw("void") { return Ok(Inst::Ret(None)); }
            let (t, o) = fb.typed(p)?;
            Ok(Inst::Ret(Some((t, o))))
        }
        "br" => {
            if p.eatw("label") {
                let b = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("br") };
                return Ok(Inst::Br(b));
            }
            let (_, c) = fb.typed(p)?;
            p.expect(',')?;
            p.eatw("label");
            let a = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("br") };
            p.expect(',')?;
            p.eatw("label");
            let b = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("br") };
            Ok(Inst::CondBr(c, a, b))
        }
        "switch" => {
            let (t, v) = fb.typed(p)?;
            p.expect(',')?;
            p.eatw("label");
            let d = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("switch") };
            p.expect('[')?;
            let mut cs = Vec::new();
            while !p.eat(']') {
                let ct = p.ty()?;
                let c = match p.cst(&ct)? { Cst::Int(k) => mask(k, ct.bits()), Cst::Zero => 0, _ => return p.err("case") };
                p.expect(',')?;
                p.eatw("label");
                let b = match p.next()? { Tok::Local(n) => fb.block(&n)?, _ => return p.err("switch") };
                cs.push((c, b));
            }
            Ok(Inst::Switch(t, v, d, cs))
        }
        "unreachable" => Ok(Inst::Unreachable),
        _ => Err(format!("unsupported instruction {} in {}", w, p.line)),
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
