//! Test plugins: WebAssembly text modules (extism accepts them in place of binaries) whose
//! commands echo, escape or ignore their input in a way the oracle can compute.
use brack_plugin::metadata::Metadata;
use brack_plugin::types::Type;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// prefix + input + suffix
    Echo(String, String),
    /// prefix + input with `"` and `\` escaped + suffix
    Quote(String, String),
    /// A fixed output.
    Const(String),
    /// prefix + number of such calls of this plugin (4 digits) + input + suffix
    Count(String, String),
    /// Ends with a trap.
    Trap,
    /// Reports an error.
    Fail,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub name: String,
    pub args: Vec<Type>,
    pub ret: Type,
    pub act: Act,
}

impl PartialEq for Spec {
    fn eq(&self, o: &Spec) -> bool {
        self.name == o.name && self.ret == o.ret
    }
}

fn wat_bytes(s: &str) -> String {
    s.bytes().map(|b| format!("\\{b:02x}")).collect()
}

pub fn metadata_json(specs: &[Spec]) -> String {
    let m: Vec<Metadata> = specs
        .iter()
        .enumerate()
        .map(|(i, s)| Metadata {
            command_name: s.name.clone(),
            call_name: format!("call_{i}"),
            argument_types: s.args.iter().enumerate().map(|(k, t)| (format!("a{k}"), t.clone())).collect(),
            return_type: s.ret.clone(),
        })
        .collect();
    serde_json::to_string(&m).unwrap()
}

pub fn plugin_wat(specs: &[Spec]) -> String {
    plugin_wat_with(&metadata_json(specs), specs)
}

pub fn plugin_wat_with(metadata: &str, specs: &[Spec]) -> String {
    let mut blob = String::new();
    let mut add = |s: &str| {
        let o = blob.len();
        blob.push_str(s);
        format!("(i32.const {}) (i32.const {})", o, s.len())
    };
    let md = add(metadata);
    let mut fs = format!(
        "(func (export \"get_metadata\") (result i32) (call $emit {md} (i32.const 0) (i32.const 0) (i32.const 0)))\n"
    );
    for (i, s) in specs.iter().enumerate() {
        let body = match &s.act {
            Act::Echo(p, q) => format!("(call $emit {} {} (i32.const 1))", add(p), add(q)),
            Act::Quote(p, q) => format!("(call $emit {} {} (i32.const 2))", add(p), add(q)),
            Act::Count(p, q) => format!("(call $emit {} {} (i32.const 3))", add(p), add(q)),
            Act::Const(p) => format!("(call $emit {} (i32.const 0) (i32.const 0) (i32.const 0))", add(p)),
            Act::Trap => "(unreachable)".to_string(),
            Act::Fail => "(i32.const 1)".to_string(),
        };
        fs.push_str(&format!("(func (export \"call_{i}\") (result i32) {body})\n"));
    }
    let pages = blob.len() / 65536 + 1;
    format!(
        r#"(module
(import "extism:host/env" "input_length" (func $il (result i64)))
(import "extism:host/env" "input_load_u8" (func $iu (param i64) (result i32)))
(import "extism:host/env" "alloc" (func $alloc (param i64) (result i64)))
(import "extism:host/env" "store_u8" (func $st (param i64 i32)))
(import "extism:host/env" "output_set" (func $os (param i64 i64)))
(memory {pages})
(global $k (mut i32) (i32.const 0))
(data (i32.const 0) "{data}")
(func $emit (param $p i32) (param $pl i32) (param $s i32) (param $sl i32) (param $mode i32) (result i32)
 (local $n i64) (local $start i64) (local $o i64) (local $i i64) (local $c i32)
 (if (local.get $mode) (then (local.set $n (call $il))))
 (local.set $start (call $alloc (i64.add (i64.mul (local.get $n) (i64.const 2))
   (i64.add (i64.const 8) (i64.extend_i32_u (i32.add (local.get $pl) (local.get $sl)))))))
 (local.set $o (local.get $start))
 (block $b (loop $l (br_if $b (i32.eqz (local.get $pl)))
   (call $st (local.get $o) (i32.load8_u (local.get $p)))
   (local.set $o (i64.add (local.get $o) (i64.const 1)))
   (local.set $p (i32.add (local.get $p) (i32.const 1)))
   (local.set $pl (i32.sub (local.get $pl) (i32.const 1))) (br $l)))
 (if (i32.eq (local.get $mode) (i32.const 3)) (then
   (global.set $k (i32.add (global.get $k) (i32.const 1)))
   (local.set $c (i32.const 1000))
   (block $b (loop $l
     (call $st (local.get $o) (i32.add (i32.const 48) (i32.rem_u (i32.div_u (global.get $k) (local.get $c)) (i32.const 10))))
     (local.set $o (i64.add (local.get $o) (i64.const 1)))
     (br_if $b (i32.eq (local.get $c) (i32.const 1)))
     (local.set $c (i32.div_u (local.get $c) (i32.const 10))) (br $l)))))
 (block $b (loop $l (br_if $b (i64.eq (local.get $i) (local.get $n)))
   (local.set $c (call $iu (local.get $i)))
   (if (i32.and (i32.eq (local.get $mode) (i32.const 2))
         (i32.or (i32.eq (local.get $c) (i32.const 34)) (i32.eq (local.get $c) (i32.const 92))))
     (then (call $st (local.get $o) (i32.const 92))
           (local.set $o (i64.add (local.get $o) (i64.const 1)))))
   (call $st (local.get $o) (local.get $c))
   (local.set $o (i64.add (local.get $o) (i64.const 1)))
   (local.set $i (i64.add (local.get $i) (i64.const 1))) (br $l)))
 (block $b (loop $l (br_if $b (i32.eqz (local.get $sl)))
   (call $st (local.get $o) (i32.load8_u (local.get $s)))
   (local.set $o (i64.add (local.get $o) (i64.const 1)))
   (local.set $s (i32.add (local.get $s) (i32.const 1)))
   (local.set $sl (i32.sub (local.get $sl) (i32.const 1))) (br $l)))
 (call $os (local.get $start) (i64.sub (local.get $o) (local.get $start)))
 (i32.const 0))
{fs})"#,
        data = wat_bytes(&blob)
    )
}
