//! rustc driver that dumps the type-checked program (MIR, resolved callees, items) of the
//! crates named in TTG_CRATES as JSON into TTG_OUT.  Used as RUSTC_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, GenericArgsRef, Ty, TyCtxt, TypingEnv};

// ---------- tiny JSON ----------
enum J {
  Null,
  B(bool),
  I(i128),
  S(String),
  A(Vec<J>),
  O(Vec<(&'static str, J)>),
}
impl J {
  fn s(x: impl Into<String>) -> J {
    J::S(x.into())
  }
  fn write(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::B(b) => o.push_str(if *b { "true" } else { "false" }),
      J::I(i) => {
        write!(o, "{}", i).unwrap();
      },
      J::S(s) => {
        o.push('"');
        for c in s.chars() {
          match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
          }
        }
        o.push('"');
      },
      J::A(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          x.write(o);
        }
        o.push(']');
      },
      J::O(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          write!(o, "\"{}\":", k).unwrap();
          x.write(o);
        }
        o.push('}');
      },
    }
  }
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: Vec<J>,
  ty_map: HashMap<Ty<'tcx>, usize>,
  /// foreign functions seen as callees whose bodies are wanted as well
  foreign: Vec<DefId>,
}

/// small combinator modules of core whose bodies are dumped so that they need no hand-written model
fn wanted_foreign(q: &str) -> bool {
  ["core::option::", "core::result::", "core::bool::", "core::ops::control_flow::"].iter().any(|p| q.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
  fn key(&self, d: DefId) -> String {
    let h = self.tcx.def_path_hash(d);
    format!("{:?}", h.0).replace("Fingerprint", "")
  }
  fn path(&self, d: DefId) -> String {
    with_no_trimmed_paths!(self.tcx.def_path_str(d))
  }
  /// crate-qualified syntactic path, stable for foreign and local items alike
  fn qpath(&self, d: DefId) -> String {
    let c = self.tcx.crate_name(d.krate);
    format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
  }
  fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
    let v: Vec<_> = a.iter().filter_map(|x| x.as_type()).collect();
    J::A(v.into_iter().map(|t| self.ty(t)).collect())
  }
  fn ty(&mut self, t: Ty<'tcx>) -> J {
    J::I(self.ty_idx(t) as i128)
  }
  fn ty_idx(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.ty_map.get(&t) {
      return *i;
    }
    let i = self.tys.len();
    self.tys.push(J::Null);
    self.ty_map.insert(t, i);
    let s = with_no_trimmed_paths!(format!("{}", t));
    let mut o = vec![("s", J::s(s))];
    match t.kind() {
      ty::Adt(def, args) => {
        o.push(("k", J::s("adt")));
        o.push(("n", J::s(self.qpath(def.did()))));
        o.push(("d", J::s(self.key(def.did()))));
        let a = self.args(args);
        o.push(("a", a));
      },
      ty::Ref(_, t, m) => {
        o.push(("k", J::s("ref")));
        o.push(("m", J::B(m.is_mut())));
        let a = self.ty(*t);
        o.push(("t", a));
      },
      ty::RawPtr(t, m) => {
        o.push(("k", J::s("ptr")));
        o.push(("m", J::B(m.is_mut())));
        let a = self.ty(*t);
        o.push(("t", a));
      },
      ty::Tuple(ts) => {
        o.push(("k", J::s("tuple")));
        let a: Vec<_> = ts.iter().map(|t| self.ty(t)).collect();
        o.push(("a", J::A(a)));
      },
      ty::Array(t, _) => {
        o.push(("k", J::s("array")));
        let a = self.ty(*t);
        o.push(("t", a));
      },
      ty::Slice(t) => {
        o.push(("k", J::s("slice")));
        let a = self.ty(*t);
        o.push(("t", a));
      },
      ty::Param(p) => {
        o.push(("k", J::s("param")));
        o.push(("n", J::s(p.name.to_string())));
      },
      ty::Closure(d, _) => {
        o.push(("k", J::s("closure")));
        o.push(("d", J::s(self.key(*d))));
        o.push(("n", J::s(self.qpath(*d))));
      },
      ty::FnDef(d, args) => {
        o.push(("k", J::s("fndef")));
        o.push(("d", J::s(self.key(*d))));
        o.push(("n", J::s(self.qpath(*d))));
        let args = args.no_bound_vars();
        if let Some(args) = args {
          let a = self.args(args);
          o.push(("a", a));
        }
      },
      ty::Alias(..) => {
        o.push(("k", J::s("alias")));
      },
      ty::Dynamic(..) => {
        o.push(("k", J::s("dyn")));
      },
      ty::FnPtr(..) => {
        o.push(("k", J::s("fnptr")));
      },
      _ => {
        o.push(("k", J::s("prim")));
      },
    }
    self.tys[i] = J::O(o);
    i
  }
  fn span(&self, s: rustc_span::Span) -> J {
    let s = s.source_callsite();
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let f = match &lo.file.name {
      rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
      o => format!("{:?}", o),
    };
    J::s(format!("{}:{}", f, lo.line))
  }

  fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> J {
    let mut proj = Vec::new();
    let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection.iter() {
      proj.push(match e {
        ProjectionElem::Deref => J::O(vec![("k", J::s("deref"))]),
        ProjectionElem::Field(f, t) => {
          let mut name = J::Null;
          if let ty::Adt(def, _) = pty.ty.kind() {
            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
            if def.is_struct() || def.is_enum() {
              name = J::s(def.variant(v).fields[f].name.to_string());
            }
          }
          let t = self.ty(t);
          J::O(vec![("k", J::s("field")), ("i", J::I(f.index() as i128)), ("n", name), ("t", t)])
        },
        ProjectionElem::Index(l) => J::O(vec![("k", J::s("index")), ("l", J::I(l.index() as i128))]),
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          J::O(vec![("k", J::s("cindex")), ("o", J::I(offset as i128)), ("e", J::B(from_end))])
        },
        ProjectionElem::Downcast(_, v) => {
          let mut name = J::Null;
          if let ty::Adt(def, _) = pty.ty.kind() {
            name = J::s(def.variant(v).name.to_string());
          }
          J::O(vec![("k", J::s("downcast")), ("v", J::I(v.index() as i128)), ("n", name)])
        },
        ProjectionElem::Subslice { .. } => J::O(vec![("k", J::s("subslice"))]),
        _ => J::O(vec![("k", J::s("other"))]),
      });
      pty = pty.projection_ty(self.tcx, e);
    }
    J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(proj))])
  }

  fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
    let tcx = self.tcx;
    let mut o = vec![("d", J::s(self.key(d))), ("n", J::s(self.qpath(d))), ("p", J::s(self.path(d)))];
    o.push(("m", tcx.opt_item_name(d).map(|x| J::s(x.to_string())).unwrap_or(J::Null)));
    let a = self.args(args);
    o.push(("a", a));
    if let Some(t) = tcx.trait_of_assoc(d) {
      o.push(("trait", J::s(self.qpath(t))));
      if let Some(st) = args.types().next() {
        let st = self.ty(st);
        o.push(("self", st));
      }
    } else if let Some(i) = tcx.impl_of_assoc(d) {
      let st = tcx.type_of(i).instantiate(tcx, args).skip_norm_wip();
      let st = self.ty(st);
      o.push(("self", st));
    }
    let dk = tcx.def_kind(d);
    if let DefKind::Ctor(..) = dk {
      let p = tcx.parent(d);
      // variant or struct ctor
      let (adt, vidx, vname) = match tcx.def_kind(p) {
        DefKind::Variant => {
          let e = tcx.parent(p);
          let def = tcx.adt_def(e);
          let vi = def.variant_index_with_id(p);
          (e, vi.index(), def.variant(vi).name.to_string())
        },
        _ => (p, 0, tcx.item_name(p).to_string()),
      };
      o.push(("ctor", J::O(vec![
        ("n", J::s(self.qpath(adt))), ("v", J::I(vidx as i128)), ("vn", J::s(vname)),
      ])));
    } else if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
      let erased = tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, erased) {
        let rd = inst.def_id();
        let kind = match inst.def {
          ty::InstanceKind::Item(_) => "item",
          ty::InstanceKind::Virtual(..) => "virtual",
          _ => "other",
        };
        if !rd.is_local() && kind == "item" && wanted_foreign(&self.qpath(rd)) && !self.foreign.contains(&rd) {
          self.foreign.push(rd);
        }
        let ra = self.args(inst.args);
        o.push(("r", J::O(vec![
          ("d", J::s(self.key(rd))), ("n", J::s(self.qpath(rd))), ("p", J::s(self.path(rd))), ("a", ra), ("k", J::s(kind)),
        ])));
      }
    }
    J::O(o)
  }

  fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
    let tcx = self.tcx;
    let t = c.const_.ty();
    let tj = self.ty(t);
    let mut o = vec![("k", J::s("const")), ("t", tj)];
    if let ty::FnDef(d, args) = t.kind() {
      if let Some(args) = args.no_bound_vars() {
        let cj = self.callee(*d, args, env);
        o.push(("fn", cj));
        return J::O(o);
      }
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        o.push(("promoted", J::I(p.index() as i128)));
        o.push(("pd", J::s(self.key(u.def))));
        return J::O(o);
      }
      o.push(("uneval", J::s(self.qpath(u.def))));
    }
    if let Some(i) = c.const_.try_eval_scalar_int(tcx, env) {
      let size = i.size();
      let v: i128 = match t.kind() {
        ty::Int(_) => i.to_int(size),
        _ => i.to_bits(size) as i128,
      };
      o.push(("int", J::I(v)));
    } else if let Ok(v) = c.const_.eval(tcx, env, c.span) {
      if let Some(b) = match t.kind() {
        ty::Ref(_, it, _) if it.is_str() => v.try_get_slice_bytes_for_diagnostics(tcx),
        _ => None,
      } {
        o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
      } else if matches!(v, ConstValue::ZeroSized) {
        o.push(("zst", J::B(true)));
      }
    }
    J::O(o)
  }

  fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
    match op {
      Operand::Copy(p) => {
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("copy")), ("p", p)])
      },
      Operand::Move(p) => {
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("move")), ("p", p)])
      },
      Operand::Constant(c) => self.constant(c, env),
      Operand::RuntimeChecks(r) => J::O(vec![("k", J::s("rtcheck")), ("s", J::s(format!("{:?}", r)))]),
    }
  }

  fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
    match r {
      Rvalue::Use(o, ..) => {
        let o = self.operand(o, body, env);
        J::O(vec![("k", J::s("use")), ("o", o)])
      },
      Rvalue::Repeat(o, _) => {
        let o = self.operand(o, body, env);
        J::O(vec![("k", J::s("repeat")), ("o", o)])
      },
      Rvalue::Ref(_, bk, p) => {
        let m = matches!(bk, BorrowKind::Mut { .. });
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("ref")), ("m", J::B(m)), ("p", p)])
      },
      Rvalue::Reborrow(_, m, p) => {
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("ref")), ("m", J::B(m.is_mut())), ("p", p)])
      },
      Rvalue::RawPtr(_, p) => {
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("ref")), ("m", J::B(true)), ("raw", J::B(true)), ("p", p)])
      },
      Rvalue::Cast(k, o, t) => {
        let o = self.operand(o, body, env);
        let t = self.ty(*t);
        J::O(vec![("k", J::s("cast")), ("c", J::s(format!("{:?}", k))), ("o", o), ("t", t)])
      },
      Rvalue::BinaryOp(b, ops) => {
        let l = self.operand(&ops.0, body, env);
        let r = self.operand(&ops.1, body, env);
        J::O(vec![("k", J::s("bin")), ("op", J::s(format!("{:?}", b))), ("l", l), ("r", r)])
      },
      Rvalue::UnaryOp(u, o) => {
        let o = self.operand(o, body, env);
        J::O(vec![("k", J::s("un")), ("op", J::s(format!("{:?}", u))), ("o", o)])
      },
      Rvalue::Discriminant(p) => {
        let pt = p.ty(&body.local_decls, self.tcx).ty;
        let mut vs = Vec::new();
        if let ty::Adt(def, _) = pt.kind() {
          if def.is_enum() {
            for (vi, d) in def.discriminants(self.tcx) {
              vs.push(J::A(vec![
                J::I(d.val as i128), J::I(vi.index() as i128), J::s(def.variant(vi).name.to_string()),
              ]));
            }
          }
        }
        let t = self.ty(pt);
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("discr")), ("p", p), ("t", t), ("vs", J::A(vs))])
      },
      Rvalue::Aggregate(k, ops) => {
        let fs: Vec<_> = ops.iter().map(|o| self.operand(o, body, env)).collect();
        let mut o = vec![("k", J::s("agg")), ("f", J::A(fs))];
        match &**k {
          AggregateKind::Array(_) => o.push(("a", J::s("array"))),
          AggregateKind::Tuple => o.push(("a", J::s("tuple"))),
          AggregateKind::Adt(d, v, _, _, _) => {
            let def = self.tcx.adt_def(*d);
            o.push(("a", J::s("adt")));
            o.push(("n", J::s(self.qpath(*d))));
            o.push(("v", J::I(v.index() as i128)));
            o.push(("vn", J::s(def.variant(*v).name.to_string())));
            o.push(("fn", J::A(def.variant(*v).fields.iter().map(|f| J::s(f.name.to_string())).collect())));
          },
          AggregateKind::Closure(d, _) => {
            o.push(("a", J::s("closure")));
            o.push(("d", J::s(self.key(*d))));
            o.push(("n", J::s(self.qpath(*d))));
          },
          _ => o.push(("a", J::s("other"))),
        }
        J::O(o)
      },
      Rvalue::CopyForDeref(p) => {
        let p = self.place(*p, body);
        J::O(vec![("k", J::s("use")), ("o", J::O(vec![("k", J::s("copy")), ("p", p)]))])
      },
      Rvalue::ThreadLocalRef(d) => J::O(vec![("k", J::s("tls")), ("n", J::s(self.qpath(*d)))]),
      _ => J::O(vec![("k", J::s("other")), ("s", J::s(format!("{:?}", r)))]),
    }
  }

  fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> J {
    let tcx = self.tcx;
    let env = TypingEnv::post_analysis(tcx, owner);
    let locals: Vec<_> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
    let mut names = Vec::new();
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        let pj = self.place(p, body);
        names.push(J::A(vec![J::s(v.name.to_string()), pj]));
      }
    }
    let mut blocks = Vec::new();
    for bb in body.basic_blocks.iter() {
      let mut stmts = Vec::new();
      for s in &bb.statements {
        match &s.kind {
          StatementKind::Assign(b) => {
            let p = self.place(b.0, body);
            let r = self.rvalue(&b.1, body, env);
            stmts.push(J::O(vec![("p", p), ("r", r), ("s", self.span(s.source_info.span))]));
          },
          StatementKind::SetDiscriminant { place, variant_index } => {
            let p = self.place(**place, body);
            stmts.push(J::O(vec![("setdiscr", J::I(variant_index.index() as i128)), ("p", p), ("s", self.span(s.source_info.span))]));
          },
          _ => {},
        }
      }
      let t = bb.terminator();
      let sp = self.span(t.source_info.span);
      let b = |x: BasicBlock| J::I(x.index() as i128);
      let tj = match &t.kind {
        TerminatorKind::Goto { target, .. } => J::O(vec![("k", J::s("goto")), ("t", b(*target))]),
        TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", b(*real_target))]),
        TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", J::s("goto")), ("t", b(*real_target))]),
        TerminatorKind::SwitchInt { discr, targets } => {
          let d = self.operand(discr, body, env);
          let dt = discr.ty(&body.local_decls, tcx);
          let dt = self.ty(dt);
          let ts: Vec<_> = targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), b(t)])).collect();
          let other = targets.otherwise();
          J::O(vec![("k", J::s("switch")), ("d", d), ("dt", dt), ("ts", J::A(ts)), ("o", b(other)), ("s", sp)])
        },
        TerminatorKind::Return => J::O(vec![("k", J::s("return"))]),
        TerminatorKind::Unreachable => J::O(vec![("k", J::s("unreachable"))]),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", J::s("resume"))]),
        TerminatorKind::Drop { place, target, .. } => {
          let p = self.place(*place, body);
          J::O(vec![("k", J::s("drop")), ("p", p), ("t", b(*target)), ("s", sp)])
        },
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.operand(func, body, env);
          let a: Vec<_> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
          let at: Vec<_> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
          let d = self.place(*destination, body);
          J::O(vec![
            ("k", J::s("call")), ("f", f), ("a", J::A(a)), ("at", J::A(at)), ("d", d),
            ("t", target.map(b).unwrap_or(J::Null)), ("s", sp),
          ])
        },
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let c = self.operand(cond, body, env);
          J::O(vec![
            ("k", J::s("assert")), ("c", c), ("e", J::B(*expected)), ("t", b(*target)),
            ("m", J::s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string())), ("s", sp),
          ])
        },
        o => J::O(vec![("k", J::s("other")), ("s", J::s(format!("{:?}", o)))]),
      };
      blocks.push(J::O(vec![("c", J::B(bb.is_cleanup)), ("st", J::A(stmts)), ("t", tj)]));
    }
    J::O(vec![
      ("argc", J::I(body.arg_count as i128)),
      ("locals", J::A(locals)),
      ("names", J::A(names)),
      ("blocks", J::A(blocks)),
    ])
  }

  fn fn_item(&mut self, d: DefId) -> J {
    let tcx = self.tcx;
    let mut o = vec![
      ("d", J::s(self.key(d))),
      ("n", J::s(self.qpath(d))),
      ("p", J::s(self.path(d))),
      ("s", self.span(tcx.def_span(d))),
      ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
    ];
    o.push(("m", tcx.opt_item_name(d).map(|x| J::s(x.to_string())).unwrap_or(J::Null)));
    let mut top = d;
    if tcx.is_closure_like(d) {
      top = tcx.typeck_root_def_id(d);
      o.push(("parent", J::s(self.key(top))));
    }
    if let Some(t) = tcx.trait_of_assoc(top) {
      o.push(("in_trait", J::s(self.qpath(t))));
    }
    if let Some(i) = tcx.impl_of_assoc(top) {
      let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
      let st = self.ty(st);
      o.push(("impl_self", st));
      if let Some(tr) = tcx.impl_opt_trait_ref(i) {
        o.push(("impl_trait", J::s(self.qpath(tr.skip_binder().def_id))));
      }
      o.push(("auto", J::B(tcx.is_automatically_derived(i))));
    }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
      let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
      let ins: Vec<_> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
      let out = self.ty(sig.output());
      o.push(("in", J::A(ins)));
      o.push(("out", out));
      if let Some(l) = d.as_local() {
        let ev = tcx.effective_visibilities(());
        o.push(("reach", J::B(ev.is_reachable(l))));
        o.push(("export", J::B(ev.is_exported(l))));
      }
      o.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
    }
    J::O(o)
  }
}

struct Cb {
  out: String,
}

impl rustc_driver::Callbacks for Cb {
  fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    if tcx.dcx().has_errors().is_some() {
      return Compilation::Continue;
    }
    let mut cx = Cx { tcx, tys: vec![], ty_map: HashMap::new(), foreign: vec![] };
    let mut bodies = Vec::new();
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for k in keys {
      let d = k.to_def_id();
      let dk = tcx.def_kind(d);
      if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        continue;
      }
      let b: &mir::Body<'tcx> = tcx.optimized_mir(d);
      let item = cx.fn_item(d);
      let bj = cx.body(b, d);
      let mut ps = Vec::new();
      for p in tcx.promoted_mir(d).iter() {
        ps.push(cx.body(p, d));
      }
      bodies.push(J::O(vec![("item", item), ("body", bj), ("promoted", J::A(ps))]));
    }
    let mut i = 0;
    while i < cx.foreign.len() {
      let d = cx.foreign[i];
      i += 1;
      if !tcx.is_mir_available(d) {
        continue;
      }
      let b: &mir::Body<'tcx> = tcx.optimized_mir(d);
      let item = cx.fn_item(d);
      let bj = cx.body(b, d);
      let mut ps = Vec::new();
      for p in tcx.promoted_mir(d).iter() {
        ps.push(cx.body(p, d));
      }
      bodies.push(J::O(vec![("item", item), ("foreign", J::B(true)), ("body", bj), ("promoted", J::A(ps))]));
    }
    // declared trait items without body, adts, impls, statics
    let mut adts = Vec::new();
    let mut impls = Vec::new();
    let mut statics = Vec::new();
    let mut traits = Vec::new();
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
      let d = id.to_def_id();
      match tcx.def_kind(d) {
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
          let def = tcx.adt_def(d);
          let mut vs = Vec::new();
          for v in def.variants().iter() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
              let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
              let t = cx.ty(t);
              let exp = f.did.as_local().map(|l| ev.is_exported(l)).unwrap_or(false);
              fs.push(J::O(vec![
                ("n", J::s(f.name.to_string())), ("t", t), ("vis", J::s(format!("{:?}", f.vis))), ("export", J::B(exp)),
              ]));
            }
            vs.push(J::O(vec![("n", J::s(v.name.to_string())), ("f", J::A(fs))]));
          }
          adts.push(J::O(vec![
            ("d", J::s(cx.key(d))), ("n", J::s(cx.qpath(d))), ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
            ("vs", J::A(vs)), ("export", J::B(ev.is_exported(id))), ("s", cx.span(tcx.def_span(d))),
          ]));
        },
        DefKind::Impl { .. } => {
          let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
          let st = cx.ty(st);
          let tr = tcx.impl_opt_trait_ref(d).map(|t| J::s(cx.qpath(t.skip_binder().def_id))).unwrap_or(J::Null);
          let items: Vec<_> = tcx.associated_items(d).in_definition_order().map(|i| {
            J::O(vec![("d", J::s(cx.key(i.def_id))), ("n", i.opt_name().map(|n| J::s(n.to_string())).unwrap_or(J::Null)), ("vis", J::s(format!("{:?}", tcx.visibility(i.def_id))))])
          }).collect();
          let mut assoc = Vec::new();
          for i in tcx.associated_items(d).in_definition_order() {
            if let rustc_middle::ty::AssocKind::Type { .. } = i.kind {
              let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
              let t = cx.ty(t);
              assoc.push(J::A(vec![i.opt_name().map(|n| J::s(n.to_string())).unwrap_or(J::Null), t]));
            }
          }
          impls.push(J::O(vec![("assoc", J::A(assoc)), ("self", st), ("trait", tr), ("items", J::A(items)), ("auto", J::B(tcx.is_automatically_derived(d))), ("s", cx.span(tcx.def_span(d)))]));
        },
        DefKind::Static { mutability, .. } => {
          let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
          let t = cx.ty(t);
          statics.push(J::O(vec![("n", J::s(cx.qpath(d))), ("mut", J::B(mutability.is_mut())), ("t", t)]));
        },
        DefKind::Trait => {
          let items: Vec<_> = tcx.associated_items(d).in_definition_order().map(|i| {
            J::O(vec![("d", J::s(cx.key(i.def_id))), ("n", i.opt_name().map(|n| J::s(n.to_string())).unwrap_or(J::Null)), ("default", J::B(i.defaultness(tcx).has_value()))])
          }).collect();
          traits.push(J::O(vec![("n", J::s(cx.qpath(d))), ("items", J::A(items)), ("export", J::B(ev.is_exported(id)))]));
        },
        _ => {},
      }
    }
    let o = J::O(vec![
      ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
      ("bodies", J::A(bodies)),
      ("adts", J::A(adts)),
      ("impls", J::A(impls)),
      ("statics", J::A(statics)),
      ("traits", J::A(traits)),
      ("types", J::A(std::mem::take(&mut cx.tys))),
    ]);
    let mut s = String::new();
    o.write(&mut s);
    std::fs::write(&self.out, s).expect("write dump");
    Compilation::Continue
  }
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WRAPPER: argv[1] is the rustc to run
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
    args.remove(1);
  }
  let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
  let wanted = std::env::var("TTG_CRATES").unwrap_or_default();
  let is_wanted = crate_name.as_ref().map_or(false, |c| wanted.split(',').any(|w| w == c));
  struct Plain;
  impl rustc_driver::Callbacks for Plain {}
  if is_wanted {
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    let out = format!("{}/{}.json", std::env::var("TTG_OUT").expect("TTG_OUT"), crate_name.unwrap());
    return rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
  } else {
    return rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Plain));
  }
}
