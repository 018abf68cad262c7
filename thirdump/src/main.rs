// Dumps the typed IR (THIR) of every non-test function, closure, constant and
// type of a crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::hygiene::{ExpnId, ExpnKind};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<String>,
    expns: HashMap<ExpnId, usize>,
    expns_out: Vec<String>,
    adts: Vec<DefId>,
    adts_seen: HashMap<DefId, ()>,
    locals: HashMap<rustc_hir::HirId, usize>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", krate, p)
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types_out.len();
        self.types.insert(t, i);
        self.types_out.push(String::new());
        let s = match *t.kind() {
            ty::Adt(def, args) => {
                if self.adts_seen.insert(def.did(), ()).is_none() {
                    self.adts.push(def.did());
                }
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", js(&self.path(def.did())), a)
            }
            ty::Ref(_, t, m) => {
                let a = self.ty(t);
                format!("{{\"k\":\"ref\",\"a\":[{}],\"mut\":{}}}", a, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::Slice(t) => {
                let a = self.ty(t);
                format!("{{\"k\":\"slice\",\"a\":[{}]}}", a)
            }
            ty::Array(t, _) => {
                let a = self.ty(t);
                format!("{{\"k\":\"array\",\"a\":[{}]}}", a)
            }
            ty::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{}}}", js(&self.path(d)), a)
            }
            ty::Closure(d, args) => {
                let c = args.as_closure();
                let _ = c;
                format!("{{\"k\":\"closure\",\"d\":{}}}", js(&self.path(d)))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", js(&t.to_string())),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", js(&t.to_string()))
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", js(&format!("{:?}", t))),
        };
        self.types_out[i] = s;
        i
    }

    fn expn(&mut self, e: ExpnId) -> i64 {
        if e == ExpnId::root() {
            return -1;
        }
        if let Some(i) = self.expns.get(&e) {
            return *i as i64;
        }
        let i = self.expns_out.len();
        self.expns.insert(e, i);
        self.expns_out.push(String::new());
        let data = e.expn_data();
        let (k, n) = match data.kind {
            ExpnKind::Macro(_, n) => ("macro", n.to_string()),
            ExpnKind::Desugaring(d) => ("desugar", format!("{:?}", d)),
            ExpnKind::AstPass(d) => ("ast", format!("{:?}", d)),
            ExpnKind::Root => ("root", String::new()),
        };
        let parent = self.expn(data.call_site.ctxt().outer_expn());
        let snip = self.tcx.sess.source_map().span_to_snippet(data.call_site).unwrap_or_default();
        let snip: String = snip.chars().take(300).collect();
        let line = self.line(data.call_site);
        self.expns_out[i] = format!(
            "{{\"k\":{},\"n\":{},\"p\":{},\"l\":{},\"s\":{}}}",
            js(k),
            js(&n),
            parent,
            line,
            js(&snip)
        );
        i as i64
    }

    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        f.name.prefer_local_unconditionally().to_string()
    }

    fn local(&mut self, h: rustc_hir::HirId) -> usize {
        let n = self.locals.len();
        *self.locals.entry(h).or_insert(n)
    }

    fn variant_fields(&mut self, def: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> (String, Vec<String>) {
        if self.adts_seen.insert(def.did(), ()).is_none() {
            self.adts.push(def.did());
        }
        let v = def.variant(vi);
        let names = v.fields.iter().map(|f| f.name.to_string()).collect();
        (v.name.to_string(), names)
    }

    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> String {
        let ty = self.ty(p.ty);
        let body = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"wild\"".to_string(),
            PatKind::Never => "\"k\":\"never\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let l = self.local(var.0);
                let sub = match subpattern {
                    Some(s) => self.pat(th, s),
                    None => "null".into(),
                };
                format!(
                    "\"k\":\"bind\",\"n\":{},\"v\":{},\"mode\":{},\"sub\":{}",
                    js(name.as_str()),
                    l,
                    js(&format!("{:?}", mode)),
                    sub
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let (vn, fields) = self.variant_fields(*adt_def, *variant_index);
                let subs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(th, &f.pattern)))
                    .collect();
                format!(
                    "\"k\":\"variant\",\"adt\":{},\"variant\":{},\"nf\":{},\"subs\":[{}]",
                    js(&self.path(adt_def.did())),
                    js(&vn),
                    fields.len(),
                    subs.join(",")
                )
            }
            PatKind::Leaf { subpatterns } => {
                let subs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(th, &f.pattern)))
                    .collect();
                format!("\"k\":\"leaf\",\"subs\":[{}]", subs.join(","))
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                format!("\"k\":\"deref\",\"sub\":{}", self.pat(th, subpattern))
            }
            PatKind::Constant { value } => {
                format!("\"k\":\"const\",\"v\":{}", js(&format!("{}", value)))
            }
            PatKind::Range(r) => format!("\"k\":\"range\",\"v\":{}", js(&format!("{}", r))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a: Vec<String> = prefix.iter().map(|p| self.pat(th, p)).collect();
                let b: Vec<String> = suffix.iter().map(|p| self.pat(th, p)).collect();
                let s = match slice {
                    Some(s) => self.pat(th, s),
                    None => "null".into(),
                };
                format!("\"k\":\"slice\",\"pre\":[{}],\"mid\":{},\"suf\":[{}]", a.join(","), s, b.join(","))
            }
            PatKind::Or { pats } => {
                let a: Vec<String> = pats.iter().map(|p| self.pat(th, p)).collect();
                format!("\"k\":\"or\",\"pats\":[{}]", a.join(","))
            }
            PatKind::Guard { .. } => "\"k\":\"guard\"".to_string(),
            PatKind::Error(_) => "\"k\":\"error\"".to_string(),
        };
        format!("{{{},\"ty\":{}}}", body, ty)
    }

    fn block(&mut self, th: &Thir<'tcx>, b: BlockId) -> String {
        let bl = &th[b];
        let mut stmts = vec![];
        for s in bl.stmts.iter() {
            let st = &th[*s];
            match &st.kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(th, *expr);
                    stmts.push(format!("{{\"k\":\"expr\",\"e\":{}}}", e));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(th, pattern);
                    let i = match initializer {
                        Some(i) => self.expr(th, *i),
                        None => "null".into(),
                    };
                    let e = match else_block {
                        Some(b) => self.block(th, *b),
                        None => "null".into(),
                    };
                    stmts.push(format!("{{\"k\":\"let\",\"p\":{},\"i\":{},\"else\":{}}}", p, i, e));
                }
            }
        }
        let e = match bl.expr {
            Some(e) => self.expr(th, e),
            None => "null".into(),
        };
        let safe = matches!(bl.safety_mode, BlockSafety::Safe);
        format!(
            "{{\"stmts\":[{}],\"e\":{},\"safe\":{},\"lbl\":{}}}",
            stmts.join(","),
            e,
            safe,
            if bl.targeted_by_break { js(&format!("{:?}", bl.region_scope)) } else { "null".into() }
        )
    }

    fn exprs(&mut self, th: &Thir<'tcx>, v: &[ExprId]) -> String {
        let a: Vec<String> = v.iter().map(|e| self.expr(th, *e)).collect();
        format!("[{}]", a.join(","))
    }

    fn expr(&mut self, th: &Thir<'tcx>, id: ExprId) -> String {
        let e = &th[id];
        let ty = self.ty(e.ty);
        let x = self.expn(e.span.ctxt().outer_expn());
        let l = self.line(e.span);
        let body = match &e.kind {
            ExprKind::Scope { value, .. } => return self.expr(th, *value),
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(th, *cond);
                let t = self.expr(th, *then);
                let f = match else_opt {
                    Some(f) => self.expr(th, *f),
                    None => "null".into(),
                };
                format!("\"k\":\"if\",\"c\":{},\"t\":{},\"f\":{}", c, t, f)
            }
            ExprKind::Call { ty: fty, fun, args, from_hir_call, .. } => {
                let t = self.ty(*fty);
                let f = self.expr(th, *fun);
                let a = self.exprs(th, args);
                format!("\"k\":\"call\",\"fty\":{},\"fun\":{},\"args\":{},\"hir\":{}", t, f, a, from_hir_call)
            }
            ExprKind::Deref { arg } => format!("\"k\":\"deref\",\"e\":{}", self.expr(th, *arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                let a = self.expr(th, *lhs);
                let b = self.expr(th, *rhs);
                format!("\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}", js(&format!("{:?}", op)), a, b)
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let a = self.expr(th, *lhs);
                let b = self.expr(th, *rhs);
                format!("\"k\":\"logic\",\"op\":{},\"a\":{},\"b\":{}", js(&format!("{:?}", op)), a, b)
            }
            ExprKind::Unary { op, arg } => {
                format!("\"k\":\"un\",\"op\":{},\"e\":{}", js(&format!("{:?}", op)), self.expr(th, *arg))
            }
            ExprKind::Cast { source } => format!("\"k\":\"cast\",\"e\":{}", self.expr(th, *source)),
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.expr(th, *source),
            ExprKind::NeverToAny { source } => format!("\"k\":\"never\",\"e\":{}", self.expr(th, *source)),
            ExprKind::PointerCoercion { source, cast, .. } => {
                format!("\"k\":\"coerce\",\"c\":{},\"e\":{}", js(&format!("{:?}", cast)), self.expr(th, *source))
            }
            ExprKind::Loop { body } => format!("\"k\":\"loop\",\"e\":{}", self.expr(th, *body)),
            ExprKind::Let { expr, pat } => {
                let p = self.pat(th, pat);
                let e = self.expr(th, *expr);
                format!("\"k\":\"let\",\"p\":{},\"e\":{}", p, e)
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(th, *scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &th[*a];
                    let p = self.pat(th, &arm.pattern);
                    let g = match arm.guard {
                        Some(g) => self.expr(th, g),
                        None => "null".into(),
                    };
                    let b = self.expr(th, arm.body);
                    v.push(format!("{{\"p\":{},\"g\":{},\"b\":{}}}", p, g, b));
                }
                let ms = format!("{:?}", match_source);
                let ms = ms.split('(').next().unwrap().to_string();
                format!("\"k\":\"match\",\"s\":{},\"arms\":[{}],\"src\":{}", s, v.join(","), js(&ms))
            }
            ExprKind::Block { block } => format!("\"k\":\"block\",\"b\":{}", self.block(th, *block)),
            ExprKind::Assign { lhs, rhs } => {
                let a = self.expr(th, *lhs);
                let b = self.expr(th, *rhs);
                format!("\"k\":\"assign\",\"a\":{},\"b\":{}", a, b)
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let a = self.expr(th, *lhs);
                let b = self.expr(th, *rhs);
                format!("\"k\":\"assignop\",\"op\":{},\"a\":{},\"b\":{}", js(&format!("{:?}", op)), a, b)
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = th[*lhs].ty;
                let fname = match lt.kind() {
                    ty::Adt(def, _) => {
                        let (_, f) = self.variant_fields(*def, *variant_index);
                        f[name.as_usize()].clone()
                    }
                    _ => name.as_usize().to_string(),
                };
                let a = self.expr(th, *lhs);
                format!("\"k\":\"field\",\"e\":{},\"f\":{},\"fi\":{}", a, js(&fname), name.as_usize())
            }
            ExprKind::Index { lhs, index } => {
                let a = self.expr(th, *lhs);
                let b = self.expr(th, *index);
                format!("\"k\":\"index\",\"a\":{},\"b\":{}", a, b)
            }
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"v\":{}", self.local(id.0)),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                format!("\"k\":\"var\",\"up\":true,\"v\":{}", self.local(var_hir_id.0))
            }
            ExprKind::Borrow { arg, borrow_kind } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                format!("\"k\":\"borrow\",\"mut\":{},\"e\":{}", m, self.expr(th, *arg))
            }
            ExprKind::Break { label, value } => {
                let v = match value {
                    Some(v) => self.expr(th, *v),
                    None => "null".into(),
                };
                format!("\"k\":\"break\",\"lbl\":{},\"e\":{}", js(&format!("{:?}", label)), v)
            }
            ExprKind::Continue { label } => format!("\"k\":\"continue\",\"lbl\":{}", js(&format!("{:?}", label))),
            ExprKind::Return { value } => {
                let v = match value {
                    Some(v) => self.expr(th, *v),
                    None => "null".into(),
                };
                format!("\"k\":\"return\",\"e\":{}", v)
            }
            ExprKind::Array { fields } => format!("\"k\":\"array\",\"es\":{}", self.exprs(th, fields)),
            ExprKind::Repeat { value, count } => {
                format!("\"k\":\"repeat\",\"e\":{},\"n\":{}", self.expr(th, *value), js(&format!("{}", count)))
            }
            ExprKind::Tuple { fields } => format!("\"k\":\"tuple\",\"es\":{}", self.exprs(th, fields)),
            ExprKind::Adt(a) => {
                let (vn, names) = self.variant_fields(a.adt_def, a.variant_index);
                let fs: Vec<String> = a
                    .fields
                    .iter()
                    .map(|f| format!("[{},{}]", js(&names[f.name.as_usize()]), self.expr(th, f.expr)))
                    .collect();
                let base = match &a.base {
                    AdtExprBase::None => "null".to_string(),
                    AdtExprBase::Base(b) => self.expr(th, b.base),
                    _ => "\"default\"".to_string(),
                };
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"variant\":{},\"enum\":{},\"fields\":[{}],\"base\":{}",
                    js(&self.path(a.adt_def.did())),
                    js(&vn),
                    a.adt_def.is_enum(),
                    fs.join(","),
                    base
                )
            }
            ExprKind::Closure(c) => {
                let d = c.closure_id;
                let b = self.body(d);
                format!("\"k\":\"closure\",\"body\":{}", b)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (k, v) = match &lit.node {
                    Str(s, _) => ("str", js(s.as_str())),
                    Char(c) => ("char", js(&c.to_string())),
                    Int(n, _) => ("int", js(&format!("{}{}", if *neg { "-" } else { "" }, n.get()))),
                    Bool(b) => ("bool", b.to_string()),
                    Byte(b) => ("byte", js(&b.to_string())),
                    ByteStr(b, _) => ("bytestr", js(&format!("{:?}", b.as_byte_str()))),
                    o => ("other", js(&format!("{:?}", o))),
                };
                format!("\"k\":\"lit\",\"lk\":{},\"v\":{}", js(k), v)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                format!("\"k\":\"lit\",\"lk\":\"scalar\",\"v\":{}", js(&format!("{}", lit)))
            }
            ExprKind::ZstLiteral { .. } => "\"k\":\"zst\"".to_string(),
            ExprKind::NamedConst { def_id, .. } => format!("\"k\":\"const\",\"d\":{}", js(&self.path(*def_id))),
            ExprKind::StaticRef { def_id, .. } => format!("\"k\":\"static\",\"d\":{}", js(&self.path(*def_id))),
            ExprKind::Reborrow { source, .. } => return self.expr(th, *source),
            o => {
                let s = format!("{:?}", o);
                format!("\"k\":\"unsupported\",\"what\":{}", js(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")))
            }
        };
        format!("{{{},\"ty\":{},\"x\":{},\"l\":{}}}", body, ty, x, l)
    }

    fn body(&mut self, d: LocalDefId) -> String {
        let tcx = self.tcx;
        let (th, root) = match tcx.thir_body(d) {
            Ok(x) => x,
            Err(_) => return "null".into(),
        };
        let th = th.borrow();
        let mut params = vec![];
        for p in th.params.iter() {
            let t = self.ty(p.ty);
            let pt = match &p.pat {
                Some(p) => self.pat(&th, p),
                None => "null".into(),
            };
            params.push(format!("{{\"ty\":{},\"p\":{}}}", t, pt));
        }
        let ret = match th.body_type {
            BodyTy::Const(t) => self.ty(t),
            BodyTy::Fn(sig) => self.ty(sig.output()),
            BodyTy::GlobalAsm(t) => self.ty(t),
        };
        let v = self.expr(&th, root);
        let kind = tcx.def_kind(d.to_def_id());
        let sp = tcx.def_span(d.to_def_id());
        let full = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d));
        let sm = tcx.sess.source_map();
        let endl = sm.lookup_char_pos(full.source_callsite().hi()).line;
        format!(
            "{{\"d\":{},\"kind\":{},\"params\":[{}],\"ret\":{},\"value\":{},\"file\":{},\"line\":{},\"end\":{},\"x\":{}}}",
            js(&self.path(d.to_def_id())),
            js(&format!("{:?}", kind)),
            params.join(","),
            ret,
            v,
            js(&self.file(sp)),
            self.line(sp),
            endl,
            self.expn(full.ctxt().outer_expn())
        )
    }

    fn adt(&mut self, d: DefId) -> String {
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                fs.push(format!("[{},{}]", js(f.name.as_str()), t));
            }
            vs.push(format!(
                "{{\"n\":{},\"ctor\":{},\"fields\":[{}]}}",
                js(v.name.as_str()),
                js(&format!("{:?}", v.ctor_kind())),
                fs.join(",")
            ));
        }
        let generics: Vec<String> = self
            .tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| js(p.name.as_str()))
            .collect();
        let kind = if def.is_enum() { "enum" } else { "struct" };
        format!(
            "{{\"d\":{},\"local\":{},\"kind\":{},\"generics\":[{}],\"variants\":[{}]}}",
            js(&self.path(d)),
            d.is_local(),
            js(kind),
            generics.join(","),
            vs.join(",")
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut d = D {
            tcx,
            types: HashMap::new(),
            types_out: vec![],
            expns: HashMap::new(),
            expns_out: vec![],
            adts: vec![],
            adts_seen: HashMap::new(),
            locals: HashMap::new(),
        };
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Closure | DefKind::AnonConst => continue,
                _ => {}
            }
            let b = d.body(def);
            // derived impls are marked
            let parent = tcx.parent(did);
            let mut derived = false;
            let mut imp = "null".to_string();
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                derived = tcx.is_automatically_derived(parent);
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    imp = js(&format!("{}", tr.instantiate_identity().skip_norm_wip()));
                }
            }
            let generics = tcx.generics_of(did).own_params.iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| js(p.name.as_str())).collect::<Vec<_>>();
            bodies.push(format!(
                "{{\"derived\":{},\"impl\":{},\"generics\":{},\"gnames\":[{}],\"body\":{}}}",
                derived, imp, generics.len(), generics.join(","), b
            ));
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id.to_def_id()), DefKind::Struct | DefKind::Enum) {
                if d.adts_seen.insert(id.to_def_id(), ()).is_none() {
                    d.adts.push(id.to_def_id());
                }
            }
        }
        let mut i = 0;
        while i < d.adts.len() {
            let id = d.adts[i];
            let keep = id.is_local() || {
                let p = d.path(id);
                p.starts_with("nom::") || p.starts_with("core::option") || p.starts_with("core::result")
            };
            if keep {
                let s = d.adt(id);
                adts.push(s);
            }
            i += 1;
        }
        // impls written by hand for local types, mutable statics
        let mut impls = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let tr = match tcx.impl_opt_trait_ref(did) {
                        Some(t) => format!("{}", t.instantiate_identity().skip_norm_wip()),
                        None => String::new(),
                    };
                    impls.push(format!("{{\"t\":{},\"derived\":{}}}", js(&tr), tcx.is_automatically_derived(did)));
                }
                DefKind::Static { .. } => {
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let fr = ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                    statics.push(format!("{{\"d\":{},\"ty\":{},\"mut\":{},\"freeze\":{}}}", js(&d.path(did)), js(&ty.to_string()), tcx.is_mutable_static(did), fr))
                }
                _ => {}
            }
        }
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let s = format!(
            "{{\"crate\":{},\"types\":[{}],\n\"expns\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\"statics\":[{}],\n\"bodies\":[\n{}]}}\n",
            js(&krate),
            d.types_out.join(",\n"),
            d.expns_out.join(",\n"),
            adts.join(",\n"),
            impls.join(","),
            statics.join(","),
            bodies.join(",\n")
        );
        let p = format!("{}/{}.json", self.out, krate);
        std::fs::write(&p, s).expect("write thir json");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let is_crate = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "-" || a == "___");
    rustc_driver::catch_with_exit_code(|| {
        if out.is_empty() || !is_crate {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        } else {
            args.push("-Zno-steal-thir".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
    })
}
