//! rustc driver that dumps the type-checked MIR of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; the Python analyses read the dump.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_infer;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    format!(
        "{{{}}}",
        v.iter()
            .map(|(k, x)| format!("{}:{}", esc(k), x))
            .collect::<Vec<_>>()
            .join(",")
    )
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: RefCell<Vec<DefId>>,
    adts_seen: RefCell<HashSet<DefId>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self
            .tcx
            .def_path_str(d)))
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.into(),
            ty::Char => r#"{"k":"char"}"#.into(),
            ty::Str => r#"{"k":"str"}"#.into(),
            ty::Never => r#"{"k":"never"}"#.into(),
            ty::Int(i) => obj(&[
                ("k", esc("int")),
                ("w", i.bit_width().unwrap_or(64).to_string()),
                ("n", esc(i.name_str())),
            ]),
            ty::Uint(i) => obj(&[
                ("k", esc("uint")),
                ("w", i.bit_width().unwrap_or(64).to_string()),
                ("n", esc(i.name_str())),
            ]),
            ty::Float(_) => r#"{"k":"float"}"#.into(),
            ty::Adt(def, args) => {
                if self.adts_seen.borrow_mut().insert(def.did()) {
                    self.adts.borrow_mut().push(def.did());
                }
                obj(&[
                    ("k", esc("adt")),
                    ("d", esc(&self.path(def.did()))),
                    ("a", self.args(args)),
                ])
            }
            ty::Array(e, n) => obj(&[
                ("k", esc("array")),
                ("e", self.ty(e)),
                (
                    "n",
                    match n.try_to_target_usize(self.tcx) {
                        Some(x) => x.to_string(),
                        None => esc(&format!("{}", n)),
                    },
                ),
            ]),
            ty::Slice(e) => obj(&[("k", esc("slice")), ("e", self.ty(e))]),
            ty::Ref(_, e, m) => obj(&[
                ("k", esc("ref")),
                ("m", m.is_mut().to_string()),
                ("e", self.ty(e)),
            ]),
            ty::RawPtr(e, m) => obj(&[
                ("k", esc("ptr")),
                ("m", m.is_mut().to_string()),
                ("e", self.ty(e)),
            ]),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                obj(&[
                    ("k", esc("fndef")),
                    ("d", esc(&self.path(d.into()))),
                    ("a", self.args(args)),
                ])
            }
            ty::FnPtr(..) => r#"{"k":"fnptr"}"#.into(),
            ty::Closure(d, args) => obj(&[
                ("k", esc("closure")),
                ("d", esc(&self.path(d.into()))),
                ("a", self.args(args)),
            ]),
            ty::Tuple(ts) => obj(&[
                ("k", esc("tuple")),
                ("e", arr(ts.iter().map(|t| self.ty(t)))),
            ]),
            ty::Param(p) => obj(&[
                ("k", esc("param")),
                ("i", p.index.to_string()),
                ("n", esc(p.name.as_str())),
            ]),
            ty::Dynamic(..) => obj(&[("k", esc("dyn")), ("s", esc(&format!("{}", t)))]),
            ty::Alias(..) => obj(&[("k", esc("alias")), ("s", esc(&format!("{}", t)))]),
            _ => obj(&[("k", esc("other")), ("s", esc(&format!("{:?}", t)))]),
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        arr(a.iter().map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => self.ty(t),
            ty::GenericArgKind::Lifetime(_) => "null".to_string(),
            ty::GenericArgKind::Const(c) => obj(&[
                ("k", esc("const")),
                (
                    "n",
                    match c.try_to_target_usize(self.tcx) {
                        Some(x) => x.to_string(),
                        None => esc(&format!("{}", c)),
                    },
                ),
            ]),
        }))
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        obj(&[
            ("l", p.local.as_u32().to_string()),
            (
                "p",
                arr(p.projection.iter().map(|e| match e {
                    ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                    ProjectionElem::Field(f, t) => {
                        format!("[\"field\",{},{}]", f.as_u32(), self.ty(t))
                    }
                    ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_u32()),
                    ProjectionElem::ConstantIndex {
                        offset,
                        min_length,
                        from_end,
                    } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                    ProjectionElem::Subslice { from, to, from_end } => {
                        format!("[\"subslice\",{},{},{}]", from, to, from_end)
                    }
                    ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_u32()),
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                })),
            ),
        ])
    }
    fn alloc_bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.size().bytes() {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(
                        off as usize..(off + len) as usize,
                    )
                    .to_vec(),
                )
            }
            _ => None,
        }
    }
    fn seq(&self, id: AllocId, off: u64, e: Ty<'tcx>, n: u64) -> Option<String> {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            let b = self.alloc_bytes(id, off, n)?;
            return Some(obj(&[
                ("c", esc("bytes")),
                ("v", esc(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>())),
            ]));
        }
        let lay = self
            .tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(e))
            .ok()?;
        let mut out = vec![];
        for i in 0..n {
            out.push(self.cv_ind(id, off + i * lay.size.bytes(), e)?);
        }
        Some(obj(&[("c", esc("seq")), ("v", arr(out))]))
    }
    fn ptr_to(&self, id: AllocId, off: u64, e: Ty<'tcx>, meta: Option<u64>) -> Option<String> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Static(d) => {
                Some(obj(&[("c", esc("static")), ("d", esc(&self.path(d)))]))
            }
            GlobalAlloc::Function { instance } => Some(self.fnval(instance)),
            GlobalAlloc::Memory(_) => {
                let inner = match *e.kind() {
                    ty::Str => {
                        let b = self.alloc_bytes(id, off, meta?)?;
                        obj(&[
                            ("c", esc("str")),
                            ("v", esc(&String::from_utf8_lossy(&b))),
                        ])
                    }
                    ty::Slice(el) => self.seq(id, off, el, meta?)?,
                    _ => self.cv_ind(id, off, e)?,
                };
                Some(obj(&[("c", esc("ref")), ("v", inner)]))
            }
            _ => None,
        }
    }
    fn fnval(&self, instance: Instance<'tcx>) -> String {
        obj(&[
            ("c", esc("fn")),
            ("d", esc(&self.path(instance.def_id()))),
            ("a", self.args(instance.args)),
        ])
    }
    fn cv_ind(&self, id: AllocId, off: u64, t: Ty<'tcx>) -> Option<String> {
        let psz = 8u64;
        let read_ptr = |o: u64| -> Option<(AllocId, u64)> {
            match self.tcx.try_get_global_alloc(id)? {
                GlobalAlloc::Memory(m) => {
                    let a = m.inner();
                    let s = a
                        .read_scalar(
                            &self.tcx,
                            rustc_middle::mir::interpret::alloc_range(
                                rustc_abi::Size::from_bytes(o),
                                rustc_abi::Size::from_bytes(psz),
                            ),
                            true,
                        )
                        .ok()?;
                    match s {
                        Scalar::Ptr(p, _) => {
                            let (prov, off) = p.prov_and_relative_offset();
                            Some((prov.alloc_id(), off.bytes()))
                        }
                        _ => None,
                    }
                }
                _ => None,
            }
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let lay = self
                    .tcx
                    .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
                    .ok()?;
                let b = self.alloc_bytes(id, off, lay.size.bytes())?;
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                Some(obj(&[("c", esc("int")), ("v", esc(&v.to_string()))]))
            }
            ty::Array(e, n) => self.seq(id, off, e, n.try_to_target_usize(self.tcx)?),
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let (pid, poff) = read_ptr(off)?;
                let meta = match e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let b = self.alloc_bytes(id, off + psz, psz)?;
                        Some(u64::from_le_bytes(b.try_into().ok()?))
                    }
                    _ => None,
                };
                self.ptr_to(pid, poff, e, meta)
            }
            ty::FnPtr(..) => {
                let (pid, poff) = read_ptr(off)?;
                self.ptr_to(pid, poff, t, None)
            }
            _ => self.cv_agg(
                ConstValue::Indirect {
                    alloc_id: id,
                    offset: rustc_abi::Size::from_bytes(off),
                },
                t,
            ),
        }
    }
    fn cv_agg(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {}
            _ => return None,
        }
        let d = self
            .tcx
            .try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields.iter() {
            fs.push(self.cv(*fv, *ft)?);
        }
        if let ty::Array(..) = t.kind() {
            return Some(obj(&[("c", esc("seq")), ("v", arr(fs))]));
        }
        Some(obj(&[
            ("c", esc("agg")),
            ("t", self.ty(t)),
            (
                "variant",
                d.variant.map(|x| x.as_u32()).unwrap_or(0).to_string(),
            ),
            ("v", arr(fs)),
        ]))
    }
    fn cv(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            return Some(obj(&[
                ("c", esc("fn")),
                ("d", esc(&self.path(d.into()))),
                ("a", self.args(args)),
            ]));
        }
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => Some(obj(&[
                    ("c", esc("int")),
                    ("v", esc(&i.to_bits(i.size()).to_string())),
                ])),
                _ => self.cv_agg(v, t),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match *t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                        self.ptr_to(prov.alloc_id(), off.bytes(), e, None)
                    }
                    _ => self.ptr_to(prov.alloc_id(), off.bytes(), t, None),
                }
            }
            ConstValue::ZeroSized => Some(match t.kind() {
                ty::Adt(..) | ty::Tuple(..) => obj(&[
                    ("c", esc("agg")),
                    ("t", self.ty(t)),
                    ("variant", "0".into()),
                    ("v", "[]".into()),
                ]),
                ty::Array(..) => obj(&[("c", esc("seq")), ("v", "[]".into())]),
                _ => obj(&[("c", esc("zst")), ("t", self.ty(t))]),
            }),
            ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                ty::Ref(_, e, _) => self.ptr_to(alloc_id, 0, e, Some(meta)),
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => self.cv_ind(alloc_id, offset.bytes(), t),
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fnconst(d.into(), args.skip_binder(), env, &tj);
        }
        let mut unev = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            unev = obj(&[
                ("d", esc(&self.path(u.def))),
                ("a", self.args(u.args)),
                (
                    "promoted",
                    u.promoted
                        .map(|p| p.as_u32().to_string())
                        .unwrap_or("null".into()),
                ),
                ("local", u.def.is_local().to_string()),
            ]);
        }
        let val = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.cv(v, t),
            Err(_) => None,
        };
        obj(&[
            ("o", esc("const")),
            ("t", tj),
            ("v", val.unwrap_or("null".into())),
            ("u", unev),
            ("s", esc(&format!("{}", c.const_))),
        ])
    }
    fn fnconst(
        &self,
        d: DefId,
        args: GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
        tj: &str,
    ) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                res = obj(&[
                    ("d", esc(&self.path(i.def_id()))),
                    ("a", self.args(i.args)),
                    ("local", i.def_id().is_local().to_string()),
                    ("kind", esc(&format!("{:?}", std::mem::discriminant(&i.def)).chars().filter(|c| c.is_ascii_digit()).collect::<String>())),
                    ("item", matches!(i.def, ty::InstanceKind::Item(_)).to_string()),
                ]);
            }
        }
        let tr = tcx
            .trait_of_assoc(d)
            .map(|t| esc(&self.path(t)))
            .unwrap_or("null".into());
        obj(&[
            ("o", esc("fn")),
            ("d", esc(&self.path(d))),
            ("a", self.args(args)),
            ("name", esc(tcx.item_name(d).as_str())),
            ("trait", tr),
            ("local", d.is_local().to_string()),
            ("res", res),
            ("t", tj.to_string()),
            (
                "unsafe",
                (matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                    && !tcx.fn_sig(d).skip_binder().safety().is_safe())
                .to_string(),
            ),
        ])
    }
    fn operand(&self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("o", esc("copy")), ("p", self.place(p))]),
            Operand::Move(p) => obj(&[("o", esc("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(r) => obj(&[("o", esc("rtcheck")), ("s", esc(&format!("{:?}", r)))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => obj(&[("r", esc("use")), ("x", self.operand(o, env))]),
            Rvalue::Repeat(o, n) => obj(&[
                ("r", esc("repeat")),
                ("x", self.operand(o, env)),
                (
                    "n",
                    match n.try_to_target_usize(self.tcx) {
                        Some(x) => x.to_string(),
                        None => esc(&format!("{}", n)),
                    },
                ),
            ]),
            Rvalue::Ref(_, k, p) => obj(&[
                ("r", esc("ref")),
                ("m", matches!(k, BorrowKind::Mut { .. }).to_string()),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => obj(&[("r", esc("rawptr")), ("p", self.place(p))]),
            Rvalue::Cast(k, o, t) => obj(&[
                ("r", esc("cast")),
                ("kind", esc(&format!("{:?}", k))),
                ("x", self.operand(o, env)),
                ("t", self.ty(*t)),
                ("from", self.ty(o.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::BinaryOp(op, b) => obj(&[
                ("r", esc("bin")),
                ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(&b.0, env)),
                ("b", self.operand(&b.1, env)),
                ("t", self.ty(b.0.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => obj(&[
                ("r", esc("un")),
                ("op", esc(&format!("{:?}", op))),
                ("x", self.operand(o, env)),
                ("t", self.ty(o.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::Discriminant(p) => obj(&[
                ("r", esc("discr")),
                ("p", self.place(p)),
                ("t", self.ty(p.ty(&body.local_decls, self.tcx).ty)),
            ]),
            Rvalue::Aggregate(k, fs) => {
                let f = arr(fs.iter().map(|o| self.operand(o, env)));
                match &**k {
                    AggregateKind::Array(t) => obj(&[
                        ("r", esc("agg")),
                        ("kind", esc("array")),
                        ("t", self.ty(*t)),
                        ("f", f),
                    ]),
                    AggregateKind::Tuple => {
                        obj(&[("r", esc("agg")), ("kind", esc("tuple")), ("f", f)])
                    }
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        if self.adts_seen.borrow_mut().insert(*d) {
                            self.adts.borrow_mut().push(*d);
                        }
                        obj(&[
                            ("r", esc("agg")),
                            ("kind", esc("adt")),
                            ("d", esc(&self.path(*d))),
                            ("variant", v.as_u32().to_string()),
                            ("a", self.args(args)),
                            (
                                "uf",
                                uf.map(|x| x.as_u32().to_string()).unwrap_or("null".into()),
                            ),
                            ("f", f),
                        ])
                    }
                    AggregateKind::Closure(d, args) => obj(&[
                        ("r", esc("agg")),
                        ("kind", esc("closure")),
                        ("d", esc(&self.path(*d))),
                        ("a", self.args(args)),
                        ("f", f),
                    ]),
                    other => obj(&[
                        ("r", esc("agg")),
                        ("kind", esc("other")),
                        ("s", esc(&format!("{:?}", other))),
                        ("f", f),
                    ]),
                }
            }
            Rvalue::CopyForDeref(p) => obj(&[
                ("r", esc("use")),
                ("x", obj(&[("o", esc("copy")), ("p", self.place(p))])),
            ]),
            other => obj(&[("r", esc("other")), ("s", esc(&format!("{:?}", other)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, String)> {
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            obj(&[
                ("t", self.ty(d.ty)),
                (
                    "n",
                    names
                        .get(&l.as_u32())
                        .map(|s| esc(s))
                        .unwrap_or("null".into()),
                ),
            ])
        }));
        let blocks = arr(body.basic_blocks.iter().map(|bb| {
            let mut stmts = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => stmts.push(obj(&[
                        ("s", esc("assign")),
                        ("p", self.place(&b.0)),
                        ("v", self.rvalue(&b.1, env, body)),
                        ("sp", sp),
                    ])),
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => stmts.push(obj(&[
                        ("s", esc("setdiscr")),
                        ("p", self.place(place)),
                        ("variant", variant_index.as_u32().to_string()),
                        ("sp", sp),
                    ])),
                    StatementKind::StorageDead(l) => stmts.push(obj(&[
                        ("s", esc("dead")),
                        ("l", l.as_u32().to_string()),
                        ("sp", sp),
                    ])),
                    StatementKind::Intrinsic(i) => stmts.push(obj(&[
                        ("s", esc("intrinsic")),
                        ("x", esc(&format!("{:?}", i))),
                        ("sp", sp),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(&[
                    ("k", esc("goto")),
                    ("t", target.as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::SwitchInt { discr, targets } => obj(&[
                    ("k", esc("switch")),
                    ("x", self.operand(discr, env)),
                    ("ty", self.ty(discr.ty(&body.local_decls, self.tcx))),
                    (
                        "ts",
                        arr(targets
                            .iter()
                            .map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_u32()))),
                    ),
                    ("else", targets.otherwise().as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::Return => obj(&[("k", esc("return")), ("sp", sp)]),
                TerminatorKind::Unreachable => obj(&[("k", esc("unreachable")), ("sp", sp)]),
                TerminatorKind::Drop { place, target, .. } => obj(&[
                    ("k", esc("drop")),
                    ("p", self.place(place)),
                    ("ty", self.ty(place.ty(&body.local_decls, self.tcx).ty)),
                    ("t", target.as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => obj(&[
                    ("k", esc("call")),
                    ("f", self.operand(func, env)),
                    ("args", arr(args.iter().map(|a| self.operand(&a.node, env)))),
                    (
                        "at",
                        arr(args
                            .iter()
                            .map(|a| self.ty(a.node.ty(&body.local_decls, self.tcx)))),
                    ),
                    ("d", self.place(destination)),
                    (
                        "dt",
                        self.ty(destination.ty(&body.local_decls, self.tcx).ty),
                    ),
                    (
                        "t",
                        target
                            .map(|b| b.as_u32().to_string())
                            .unwrap_or("null".into()),
                    ),
                    ("sp", sp),
                ]),
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => obj(&[
                    ("k", esc("assert")),
                    ("x", self.operand(cond, env)),
                    ("e", expected.to_string()),
                    (
                        "msg",
                        esc(match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds",
                            AssertKind::Overflow(..) => "overflow",
                            AssertKind::OverflowNeg(..) => "overflow_neg",
                            AssertKind::DivisionByZero(..) => "div0",
                            AssertKind::RemainderByZero(..) => "rem0",
                            _ => "other",
                        }),
                    ),
                    ("t", target.as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => obj(&[
                    ("k", esc("goto")),
                    ("t", real_target.as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::FalseUnwind { real_target, .. } => obj(&[
                    ("k", esc("goto")),
                    ("t", real_target.as_u32().to_string()),
                    ("sp", sp),
                ]),
                TerminatorKind::UnwindResume => obj(&[("k", esc("resume")), ("sp", sp)]),
                other => obj(&[
                    ("k", esc("other")),
                    ("s", esc(&format!("{:?}", other))),
                    ("sp", sp),
                ]),
            };
            obj(&[
                ("s", arr(stmts)),
                ("t", term),
                ("cleanup", bb.is_cleanup.to_string()),
            ])
        }));
        vec![
            ("argc", body.arg_count.to_string()),
            ("locals", locals),
            ("blocks", blocks),
            ("span", self.span(body.span)),
        ]
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.out.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else {
            return Compilation::Continue;
        };
        let cx = Cx {
            tcx,
            adts: RefCell::new(vec![]),
            adts_seen: RefCell::new(HashSet::new()),
        };
        let mut fns = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for ld in owners {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let (kname, body): (&str, &Body<'tcx>) = match kind {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    ("const", tcx.mir_for_ctfe(d))
                }
                DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
                _ => continue,
            };
            let mut uf = UnsafeFinder { tcx, out: vec![] };
            if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                if kname != "closure" {
                    rustc_hir::intravisit::Visitor::visit_body(&mut uf, b);
                }
            }
            let mut f = vec![
                ("d", esc(&cx.path(d))),
                ("kind", esc(kname)),
                (
                    "name",
                    esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
                ),
                (
                    "parent",
                    tcx.opt_parent(d)
                        .map(|p| esc(&cx.path(p)))
                        .unwrap_or("null".into()),
                ),
                (
                    "vis",
                    esc(&format!("{:?}", tcx.visibility(if kname == "closure" { tcx.typeck_root_def_id(d) } else { d }))),
                ),
                ("unsafe_blocks", arr(uf.out.iter().map(|s| cx.span(*s)))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                f.push((
                    "is_unsafe",
                    (!tcx.fn_sig(d).skip_binder().safety().is_safe()).to_string(),
                ));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    f.push((
                        "impl_self",
                        cx.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()),
                    ));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        f.push((
                            "impl_trait",
                            esc(&cx.path(tr.instantiate_identity().skip_norm_wip().def_id)),
                        ));
                    }
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    f.push(("trait_default", esc(&cx.path(tr))));
                }
            }
            f.push((
                "generics",
                arr(ty::GenericArgs::identity_for_item(tcx, d).iter().map(|g| {
                    match g.kind() {
                        ty::GenericArgKind::Type(t) => cx.ty(t),
                        _ => "null".into(),
                    }
                })),
            ));
            f.extend(cx.body(body, env));
            if !matches!(kind, DefKind::Static { .. }) || true {
                let prom = tcx.promoted_mir(d);
                f.push((
                    "promoted",
                    arr(prom.iter().map(|b| obj(&cx.body(b, env)))),
                ));
            }
            if kname == "const" || kname == "static" {
                let v = if kname == "static" {
                    tcx.eval_static_initializer(d).ok().and_then(|_a| {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let id = tcx.reserve_and_set_memory_alloc(_a);
                        cx.cv_ind(id, 0, t)
                    })
                } else if tcx.generics_of(d).requires_monomorphization(tcx) {
                    None
                } else {
                    tcx.const_eval_poly(d).ok().and_then(|v| {
                        cx.cv(v, tcx.type_of(d).instantiate_identity().skip_norm_wip())
                    })
                };
                f.push(("value", v.unwrap_or("null".into())));
            }
            fns.push(obj(&f));
        }
        // impl items without bodies of interest: trait impl table
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
            for i in ids {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                // fields of a type declared to implement an unsafe marker trait that do not implement it
                let mut lacking = vec![];
                let tp = cx.path(*tr);
                if tp == "std::marker::Send" || tp == "std::marker::Sync" {
                    if let ty::Adt(ad, ga) = st.kind() {
                        let penv = tcx.param_env(i.to_def_id());
                        for fd in ad.all_fields() {
                            let ft = fd.ty(tcx, ga).skip_norm_wip();
                            let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                            if !icx.type_implements_trait(*tr, [ft], penv).must_apply_modulo_regions() {
                                lacking.push(format!("[{},{}]", esc(fd.name.as_str()), cx.ty(ft)));
                            }
                        }
                    }
                }
                impls.push(obj(&[
                    ("lacking", arr(lacking)),
                    ("trait", esc(&tp)),
                    ("self", cx.ty(st)),
                    ("sp", cx.span(tcx.def_span(i.to_def_id()))),
                    (
                        "items",
                        arr(tcx
                            .associated_items(i.to_def_id())
                            .in_definition_order()
                            .map(|it| {
                                format!(
                                    "[{},{}]",
                                    esc(it.name().as_str()),
                                    esc(&cx.path(it.def_id))
                                )
                            })),
                    ),
                ]));
            }
        }
        let mut adts = vec![];
        // all local ADTs, even when no body mentions them
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union)
                && cx.adts_seen.borrow_mut().insert(d)
            {
                cx.adts.borrow_mut().push(d);
            }
        }
        let mut i = 0;
        loop {
            let d = {
                let a = cx.adts.borrow();
                if i >= a.len() {
                    break;
                }
                a[i]
            };
            i += 1;
            let def = tcx.adt_def(d);
            let is_enum = def.is_enum();
            let local_or_simple = d.is_local() || is_enum;
            let vars = if def.is_union() { String::from("[]") } else {
                arr(def.variants().iter_enumerated().map(|(vi, v)| {
                    obj(&[
                        ("n", esc(v.name.as_str())),
                        (
                            "discr",
                            if is_enum {
                                esc(&def.discriminant_for_variant(tcx, vi).val.to_string())
                            } else {
                                "null".into()
                            },
                        ),
                        (
                            "f",
                            if local_or_simple {
                                arr(v.fields.iter().map(|f| {
                                    obj(&[
                                        ("n", esc(f.name.as_str())),
                                        (
                                            "t",
                                            cx.ty(tcx
                                                .type_of(f.did)
                                                .instantiate_identity()
                                                .skip_norm_wip()),
                                        ),
                                    ])
                                }))
                            } else {
                                "[]".into()
                            },
                        ),
                    ])
                }))
            };
            adts.push(obj(&[
                ("d", esc(&cx.path(d))),
                ("local", d.is_local().to_string()),
                ("enum", is_enum.to_string()),
                ("vis", esc(&format!("{:?}", tcx.visibility(d)))),
                ("v", vars),
                ("sp", if d.is_local() { cx.span(tcx.def_span(d)) } else { esc("") }),
            ]));
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let kind = if tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable") {
            "bin"
        } else {
            "lib"
        };
        let out = obj(&[
            ("crate", esc(name.as_str())),
            ("kind", esc(kind)),
            ("fns", arr(fns)),
            ("adts", arr(adts)),
            ("impls", arr(impls)),
        ]);
        let tmp = format!("{}/{}-{}.json.tmp", dir, name, kind);
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(&tmp, format!("{}/{}-{}.json", dir, name, kind)).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Zinline-mir=no".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
