//! C09: for which types the derived implementations exist.
use crate::ast::*;
use crate::batch::*;
use crate::report::Ctx;
use std::collections::BTreeMap;
use vrt::choice::Src;

/// A bound of a generated definition.
#[derive(Clone, Debug, PartialEq)]
enum LB {
    K(u8),
    J(u8, Ty),
    /// `for<'z> J<&'z Ty>`
    HJ(u8, Ty),
    /// `Fn(..) -> _`, of a function pointer of the same type
    Call(Vec<Ty>, Ty),
    /// one of `BOUNDS`
    Form(&'static str, Ty),
    As,
    AsX(Ty),
    Ord,
    Hash,
    Clone,
    Lt(usize),
    MaybeSized,
}

#[derive(Clone, Debug)]
struct LP {
    ty: Ty,
    /// `for<'z> &'z ty: ..`
    hr: bool,
    bounds: Vec<LB>,
    inline: Option<usize>,
    /// the binder of the bounds is in front of the predicate
    outer: bool,
}

/// A hand-written implementation of one trait over one parameter.
#[derive(Clone, Debug)]
struct Imp {
    fm: bool,
    p: usize,
    src: Vec<u8>,
    dst: Vec<u8>,
    /// conditions on the other parameters
    other: Vec<u8>,
    /// only for these arguments
    only: (Option<Ty>, Option<Ty>),
    /// 0: as it has to be
    out: u8,
}

#[derive(Clone, Debug)]
struct BD {
    name: String,
    is_enum: bool,
    params: Vec<Param>,
    preds: Vec<LP>,
    variants: Vec<Vec<Ty>>,
    named: bool,
    /// hand-written implementations; derived if None
    hand: Option<Vec<Imp>>,
    derives: (bool, bool),
}

const XS: &[&str] = &["X0", "X1", "X2", "X3", "R<'x>"];

struct World<'a> {
    c: &'a mut Src,
    defs: Vec<BD>,
    names: Vec<Def>,
    /// what the leaf types derive: Ord, Hash, Clone
    caps: Vec<(bool, bool, bool)>,
    table: BTreeMap<(String, String), bool>,
    /// forced predicates must be true
    force: bool,
    /// the table is complete
    frozen: bool,
    conflict: bool,
    /// predicates may mention associated types
    assoc: bool,
    /// predicates may mention `Self`
    this: Option<Ty>,
    /// instances of definitions whose predicates are being decided
    active: Vec<(usize, Vec<Arg>)>,
    /// of each row of the table
    types: BTreeMap<(String, String), Vec<Ty>>,
    left: i32,
}

fn canon(t: &Ty) -> Ty {
    t.subst(&[Arg::Lt(Lt::Param(0))])
}

fn def_stub(name: &str, params: &[Param]) -> Def {
    Def {
        name: name.into(),
        is_enum: false,
        params: params.to_vec(),
        preds: vec![],
        lt_preds: vec![],
        variants: vec![],
        attrs: vec![],
        vis: String::new(),
        opts: vec![],
        derives: (true, true),
        derive_style: 0,
        hand: None,
    }
}

fn ty_param(name: &str, unsized_: bool, mapped: bool) -> Param {
    Param {
        pre: String::new(),
        name: name.into(),
        kind: PK::Ty { mapped, unsized_, copy: false, key: false, bounds: vec![], default: None },
    }
}

impl World<'_> {
    fn pr<'b>(&'b self, params: &'b [Param]) -> Print<'b> {
        Print { defs: &self.names, params, abs: None, frag: None }
    }
    /// Of a ground type; its only lifetime parameter is `'x`.
    fn text(&self, t: &Ty) -> String {
        let x = [Param { pre: String::new(), name: "'x".into(), kind: PK::Lt { bounds: vec![] } }];
        self.pr(&x).ty(&canon(t))
    }

    // ---- truth of ground predicates

    fn entry(&mut self, tr: String, ty: String, types: Vec<Ty>) -> bool {
        let k = (tr, ty);
        if let Some(v) = self.table.get(&k) {
            if self.force && !*v {
                self.conflict = true;
            }
            return *v;
        }
        if self.frozen {
            return false;
        }
        let v = self.force || !self.c.chance(1, 6);
        self.types.insert(k.clone(), types);
        self.table.insert(k, v);
        v
    }

    fn sized(&self, t: &Ty) -> bool {
        match t {
            Ty::Prim("str") => false,
            Ty::Leaf(s) => !s.starts_with('[') && !s.starts_with("(dyn"),
            Ty::User(d, args, _) => {
                let d = &self.defs[*d];
                if d.is_enum {
                    return true;
                }
                match d.variants.iter().flatten().last() {
                    Some(f) => self.sized(&f.subst(args)),
                    None => true,
                }
            }
            _ => true,
        }
    }

    /// Whether a type has a standard trait (0: Ord, 1: Eq + Hash, 2: Clone).
    fn std_trait(&self, t: &Ty, k: u8) -> bool {
        let all = |ts: &[Ty]| ts.iter().all(|t| self.std_trait(t, k));
        match t {
            Ty::Leaf(s) => match XS.iter().position(|x| x == s) {
                Some(i) => [self.caps[i].0, self.caps[i].1, self.caps[i].2][k as usize],
                None if *s == "[X1]" => k < 2 && self.std_trait(&Ty::Leaf("X1"), k),
                None => false,
            },
            Ty::Prim("str") => k < 2,
            Ty::Prim(_) | Ty::Tok(..) | Ty::Ptr(..) | Ty::Fn(..) => true,
            Ty::Paren(t) | Ty::Array(t, _) | Ty::Assoc(t, _) | Ty::Rc(t) | Ty::BoxSlice(t) => self.std_trait(t, k),
            Ty::Tuple(ts) => all(ts),
            Ty::Lib(l, ts, _) => match l.key {
                "option" | "vec" | "box" | "result" | "poll" | "deque" | "list" | "bmap" | "bset" => all(ts),
                "bound" | "controlflow" | "range" | "rangeincl" | "rangefrom" | "rangeto" | "rangetoincl" => k > 0 && all(ts),
                "phantom" => true,
                "cell" => k == 0 && self.copy(&ts[0]) && all(ts),
                "refcell" => k == 0 && all(ts),
                _ => false,
            },
            _ => false,
        }
    }

    fn copy(&self, t: &Ty) -> bool {
        match t {
            Ty::Prim(n) => *n != "str",
            Ty::Ptr(..) | Ty::Fn(..) => true,
            Ty::Tuple(ts) => ts.iter().all(|t| self.copy(t)),
            Ty::Paren(t) | Ty::Array(t, _) | Ty::Assoc(t, _) => self.copy(t),
            Ty::Lib(l, ts, _) => match l.key {
                "phantom" => true,
                "option" | "result" | "poll" | "controlflow" | "bound" | "rangeto" | "rangetoincl" => ts.iter().all(|t| self.copy(t)),
                _ => false,
            },
            _ => false,
        }
    }

    /// Nested types in a ground type are well-formed.
    fn wf(&mut self, t: &Ty) -> bool {
        let mut ok = true;
        for c in t.children() {
            ok &= self.wf(c);
        }
        if let Ty::User(d, args, _) = t {
            if !self.active.iter().any(|(e, a)| e == d && a == args) {
                ok &= self.preds_hold(*d, args);
            }
        }
        ok
    }

    fn holds(&mut self, t: &Ty, hr: bool, b: &LB) -> bool {
        let lhs = if hr { format!("&'z {}", self.paren(t)) } else { self.text(t) };
        let mut wf = self.wf(t);
        if let LB::J(_, x) | LB::HJ(_, x) | LB::AsX(x) | LB::Form(_, x) = b {
            wf &= self.wf(x);
        }
        if !wf {
            self.conflict |= self.force;
            return false;
        }
        let row = match b {
            LB::K(j) => format!("K{j}"),
            LB::J(j, x) => format!("J{j}<{}>", self.text(x)),
            LB::HJ(j, x) => format!("J{j}<&'z {}>", self.paren(x)),
            _ => String::new(),
        };
        match b {
            LB::K(_) => self.entry(row, lhs, vec![t.clone()]),
            LB::J(_, x) | LB::HJ(_, x) => self.entry(row, lhs, vec![t.clone(), x.clone()]),
            LB::As => hr || self.sized(t),
            LB::AsX(x) => self.sized(t) && self.text(t) == self.text(x),
            LB::Ord => self.std_trait(t, 0),
            LB::Hash => self.std_trait(t, 1),
            LB::Clone => self.std_trait(t, 2),
            LB::Form(..) | LB::Call(..) | LB::Lt(_) | LB::MaybeSized => true,
        }
    }

    fn paren(&self, t: &Ty) -> String {
        self.text(t)
    }

    fn preds_hold(&mut self, d: usize, env: &[Arg]) -> bool {
        let mut ok = true;
        self.active.push((d, env.to_vec()));
        for p in self.defs[d].preds.clone() {
            let t = p.ty.subst(env);
            for b in &p.bounds {
                let b = match b {
                    LB::J(j, x) => LB::J(*j, x.subst(env)),
                    LB::HJ(j, x) => LB::HJ(*j, x.subst(env)),
                    LB::Call(..) => LB::Call(vec![], t.clone()),
                    LB::Form(s, x) => LB::Form(s, x.subst(env)),
                    LB::AsX(x) => LB::AsX(x.subst(env)),
                    b => b.clone(),
                };
                // every predicate is decided, so that the table does not depend on the order
                let h = self.holds(&t, p.hr, &b);
                ok &= h;
            }
        }
        self.active.pop();
        ok
    }

    // ---- availability

    /// `Self` with arguments `env` maps over parameter `p` to `dst`.
    fn avail(&mut self, d: usize, p: usize, env: &[Arg], dst: &Ty, fm: bool) -> bool {
        let Arg::Ty(src) = &env[p] else { return false };
        let src = src.clone();
        if !self.sized(&src) || !self.sized(dst) {
            return false;
        }
        let mut to = env.to_vec();
        to[p] = Arg::Ty(dst.clone());
        if let Some(imps) = self.defs[d].hand.clone() {
            for i in imps {
                if i.fm != fm || i.p != p {
                    continue;
                }
                let mut ok = true;
                for k in &i.src {
                    ok &= self.holds(&src, false, &LB::K(*k));
                }
                for k in &i.dst {
                    ok &= self.holds(dst, false, &LB::K(*k));
                }
                for (q, a) in env.iter().enumerate() {
                    if let (Arg::Ty(t), true) = (a, q != p) {
                        let t = t.clone();
                        for k in &i.other {
                            ok &= self.holds(&t, false, &LB::K(*k));
                        }
                    }
                }
                let same = |o: &Option<Ty>, t: &Ty| o.as_ref().map(|o| self.text(o) == self.text(t)).unwrap_or(true);
                ok &= same(&i.only.0, &src) && same(&i.only.1, dst);
                // another output
                ok &= i.out == 0 || (i.out == 1 && self.text(&src) == self.text(dst));
                if ok {
                    return true;
                }
            }
            return false;
        }
        let def = self.defs[d].clone();
        if !(if fm { def.derives.0 } else { def.derives.1 }) || !def.params[p].is_mapped() {
            return false;
        }
        let mut ok = self.preds_hold(d, env);
        ok &= self.preds_hold(d, &to);
        for f in def.variants.iter().flatten() {
            ok &= self.req(f, p, env, dst, fm);
        }
        ok
    }

    /// What mapping a field of type `t` requires.
    fn req(&mut self, t: &Ty, p: usize, env: &[Arg], dst: &Ty, fm: bool) -> bool {
        if !t.mentions(p) {
            return self.sized(&t.subst(env));
        }
        let mut to = env.to_vec();
        to[p] = Arg::Ty(dst.clone());
        match t {
            Ty::Param(_) => true,
            Ty::Paren(t) | Ty::Array(t, _) => self.req(t, p, env, dst, fm),
            Ty::Tuple(ts) => {
                let mut ok = true;
                for t in ts {
                    ok &= self.req(t, p, env, dst, fm);
                }
                ok
            }
            Ty::Lib(l, ts, _) => {
                let mut ok = true;
                for (i, t) in ts.iter().enumerate().filter(|(_, t)| t.mentions(p)) {
                    // argument 0 has been mapped by the time argument 1 is
                    let key = if l.keys.is_empty() {
                        None
                    } else if i == 0 || ts[0].mentions(p) {
                        Some(ts[0].subst(&to))
                    } else {
                        Some(ts[0].subst(env))
                    };
                    if let Some(k) = key {
                        let hash = l.key.starts_with("hm") || l.key.starts_with("hs");
                        ok &= self.std_trait(&k, hash as u8);
                    }
                    ok &= self.sized(&t.subst(env)) && self.sized(&t.subst(&to));
                    ok &= self.req(t, p, env, dst, fm);
                }
                ok
            }
            Ty::User(d, args, _) => {
                let mut cur: Vec<Arg> = crate::emit::ground_args(args, env);
                let done = crate::emit::ground_args(args, &to);
                let mut ok = true;
                for (i, a) in args.iter().enumerate() {
                    let Arg::Ty(t) = a else { continue };
                    if !t.mentions(p) {
                        continue;
                    }
                    let Arg::Ty(x) = &done[i] else { unreachable!() };
                    let x = x.clone();
                    ok &= self.avail(*d, i, &cur, &x, fm);
                    cur[i] = done[i].clone();
                    ok &= self.req(t, p, env, dst, fm);
                }
                ok
            }
            // nothing is documented for other types
            _ => false,
        }
    }

    // ---- generation

    fn leaf(&mut self) -> Ty {
        match self.c.draw(8) {
            k @ 0..=4 => Ty::Leaf(XS[k as usize]),
            5 => Ty::Prim("u8"),
            6 => Ty::Tuple(vec![Ty::Leaf("X0"), Ty::Leaf("X1")]),
            _ => Ty::Lib(lib("option"), vec![Ty::Leaf("X2")], 1),
        }
    }
    /// Without lifetimes: usable inside of definitions.
    fn closed(&mut self) -> Ty {
        match self.c.draw(6) {
            k @ 0..=3 => Ty::Leaf(XS[k as usize]),
            4 => Ty::Prim("u8"),
            _ => Ty::Lib(lib("vec"), vec![Ty::Leaf("X1")], 1),
        }
    }

    /// A type in a predicate: mentions any of `ps` in any way.
    fn pred_ty(&mut self, ps: &[usize], lhs: bool) -> Ty {
        if ps.is_empty() || (!lhs && self.c.chance(1, 4)) {
            return self.closed();
        }
        let mut t = Ty::Param(*self.c.pick(ps));
        let u = Ty::Param(*self.c.pick(ps));
        let mut assoc = self.assoc;
        if let (Some(me), true) = (&self.this, self.c.chance(1, 6)) {
            t = me.clone();
            assoc = false;
        }
        match self.c.draw(10) {
            1 => Ty::Lib(lib("vec"), vec![t], 1),
            2 => Ty::Tuple(vec![t, u]),
            3 => Ty::Fn(vec![t], Box::new(u)),
            4 => Ty::Array(Box::new(t), Len::Lit(2)),
            5 => Ty::Lib(lib("option"), vec![Ty::Paren(Box::new(t))], 1),
            6 if assoc => Ty::Assoc(Box::new(t), 0),
            7 => Ty::Lib(lib("phantom"), vec![t], 1),
            8 => Ty::Ptr(true, Box::new(t)),
            _ => t,
        }
    }

    fn bound(&mut self, ps: &[usize], std: bool, un: bool, me: Option<usize>) -> LB {
        match self.c.weighted(&[5, 4, 2, if un { 0 } else { 1 }, if un || me.is_none() { 0 } else { 1 }, if std { 3 } else { 0 }, if un { 0 } else { 2 }]) {
            0 => LB::K(self.c.draw(4) as u8),
            1 => {
                let t = self.pred_ty(ps, false);
                LB::J(self.c.draw(3) as u8, t)
            }
            2 => {
                let t = self.pred_ty(ps, false);
                LB::HJ(self.c.draw(3) as u8, t)
            }
            3 => LB::As,
            4 => LB::AsX(Ty::Param(me.unwrap())),
            6 => {
                let t = self.pred_ty(ps, false);
                LB::Form(*self.c.pick(BOUNDS), t)
            }
            _ => match self.c.draw(3) {
                0 => LB::Ord,
                1 => LB::Hash,
                _ => LB::Clone,
            },
        }
    }

    fn field(&mut self, params: &[Param], depth: u32, mapped: bool) -> Ty {
        self.left -= 1;
        let pick: Vec<usize> = (0..params.len())
            .filter(|i| params[*i].is_ty() && !params[*i].is_unsized() && (mapped || !params[*i].is_mapped()))
            .collect();
        let uns: Vec<usize> = (0..params.len()).filter(|i| params[*i].is_unsized() && (mapped || !params[*i].is_mapped())).collect();
        let d = |w: u32| if depth > 0 && self.left > 0 { w } else { 0 };
        let users = if self.defs.is_empty() { 0 } else { 8 };
        let k = self.c.weighted(&[
            if pick.is_empty() { 0 } else { 7 },
            2,
            d(1),
            d(2),
            d(3),
            d(5),
            d(users),
            d(1),
            if uns.is_empty() { 0 } else { 3 },
            d(1),
        ]);
        match k {
            0 => Ty::Param(*self.c.pick(&pick)),
            1 => self.closed(),
            2 => Ty::Paren(Box::new(self.field(params, depth - 1, mapped))),
            3 => {
                let n = self.c.draw(3) as usize;
                Ty::Array(Box::new(self.field(params, depth - 1, mapped)), Len::Lit(n))
            }
            4 => {
                let n = self.c.draw(4);
                Ty::Tuple((0..n).map(|_| self.field(params, depth - 1, mapped)).collect())
            }
            5 => {
                let l = self.c.pick(LIBS);
                let ts = (0..l.arity).map(|_| self.field(params, depth - 1, mapped)).collect();
                Ty::Lib(l, ts, 1)
            }
            6 => {
                let di = self.c.draw(self.defs.len() as u32) as usize;
                let ps = self.defs[di].params.clone();
                let args = ps
                    .iter()
                    .map(|q| match &q.kind {
                        PK::Lt { .. } => Arg::Lt(Lt::Static),
                        PK::Const { .. } => {
                            let v = self.c.draw(4).to_string();
                            Arg::Const(if self.c.chance(1, 3) { CArg::Val(format!("{{ {v} }}"), v) } else { CArg::Val(v.clone(), v) })
                        }
                        PK::Ty { .. } => Arg::Ty(self.field(params, depth - 1, mapped)),
                    })
                    .collect();
                Ty::User(di, args, 0)
            }
            // not mappable
            7 => Ty::Rc(Box::new(self.field(params, depth - 1, mapped))),
            8 => {
                let u = Ty::Param(*self.c.pick(&uns));
                Ty::Lib(lib(*self.c.pick(&["box", "phantom"])), vec![u], 1)
            }
            _ => {
                let t = self.field(params, depth - 1, false);
                match self.c.draw(4) {
                    0 => Ty::Ptr(false, Box::new(t)),
                    1 => Ty::Fn(vec![t], Box::new(Ty::Prim("u8"))),
                    2 => Ty::BoxSlice(Box::new(t)),
                    _ => Ty::BoxDynTr(Box::new(t)),
                }
            }
        }
    }

    fn hand(&mut self, k: usize) {
        let mut params = vec![];
        if self.c.chance(1, 4) {
            params.push(Param { pre: String::new(), name: "'h".into(), kind: PK::Lt { bounds: vec![] } });
        }
        let cfirst = self.c.chance(1, 4);
        if cfirst {
            params.push(Param { pre: String::new(), name: "M".into(), kind: PK::Const { ty: "usize", default: None } });
        }
        let n = self.c.range(1, 2);
        for i in 0..n {
            params.push(ty_param(["P", "Q"][i as usize], false, true));
        }
        let mut imps = vec![];
        for fm in [true, false] {
            for p in (0..params.len()).filter(|p| params[*p].is_ty()).collect::<Vec<_>>() {
                let ks = |w: &mut Self, n: u32| (0..w.c.draw(n)).map(|_| w.c.draw(4) as u8).collect::<Vec<_>>();
                let mut i = Imp { fm, p, src: vec![], dst: vec![], other: vec![], only: (None, None), out: 0 };
                match self.c.weighted(&[4, 3, 1, 1, 2]) {
                    0 => {}
                    1 => {
                        i.src = ks(self, 2);
                        i.dst = ks(self, 3);
                        i.other = ks(self, 2);
                    }
                    2 => i.out = 1 + self.c.draw(3) as u8,
                    3 => continue,
                    _ => {
                        if self.c.chance(2, 3) {
                            i.only.0 = Some(self.leaf());
                        }
                        if self.c.chance(2, 3) {
                            i.only.1 = Some(self.leaf());
                        }
                    }
                }
                imps.push(i);
            }
        }
        let fields = params.iter().enumerate().filter(|(_, q)| q.is_ty()).map(|(i, _)| Ty::Param(i)).collect();
        let name = format!("N{k}");
        self.names.push(def_stub(&name, &params));
        self.defs.push(BD { name, is_enum: false, params, preds: vec![], variants: vec![fields], named: false, hand: Some(imps), derives: (true, true) });
    }

    fn derived(&mut self, name: &str, main: bool) {
        self.assoc = main;
        let mut params = vec![];
        if self.c.chance(1, 4) {
            let lts = if main { self.c.range(1, 3) } else { 1 };
            for n in &["'a", "'b", "'c"][..lts as usize] {
                params.push(Param { pre: String::new(), name: n.to_string(), kind: PK::Lt { bounds: vec![] } });
            }
        }
        let lts: Vec<usize> = (0..params.len()).collect();
        let mut names = vec!["T", "U", "V", "A", "B"];
        let n = if main { self.c.range(1, 3) } else { self.c.range(1, 2) };
        let cat = self.c.draw(4 * n);
        let mut mapped = 0;
        for i in 0..n {
            if cat == i {
                params.push(Param { pre: String::new(), name: "N".into(), kind: PK::Const { ty: "u32", default: None } });
            }
            let k = self.c.draw(names.len() as u32) as usize;
            let m = mapped == 0 || self.c.chance(1, 2);
            mapped += m as u32;
            let un = main && self.c.chance(1, 4);
            params.push(ty_param(names.remove(k), un, m));
        }
        let tys: Vec<usize> = (0..params.len()).filter(|i| params[*i].is_ty()).collect();
        let sized: Vec<usize> = tys.iter().copied().filter(|i| !params[*i].is_unsized()).collect();
        self.this = None;
        if tys == sized && (main || tys.len() == 1) {
            self.this = Some(self_ty(self.defs.len(), &params));
        }
        // fields
        let is_enum = self.c.chance(1, 3);
        let nv = if is_enum { self.c.range(1, 3) } else { 1 };
        self.left = 14;
        let mut variants: Vec<Vec<Ty>> = vec![];
        for _ in 0..nv {
            let nf = self.c.range(if nv == 1 { 1 } else { 0 }, 3);
            variants.push((0..nf).map(|_| self.field(&params, 2, true)).collect());
        }
        // every parameter occurs
        for p in &tys {
            if !variants.iter().flatten().any(|t| t.mentions(*p)) {
                let t = if params[*p].is_unsized() {
                    Ty::Lib(lib(if self.c.chance(1, 2) { "phantom" } else { "box" }), vec![Ty::Param(*p)], 1)
                } else {
                    Ty::Param(*p)
                };
                variants[0].push(t);
            }
        }
        // an unsized tail
        if !is_enum && main {
            let un: Vec<usize> = tys.iter().copied().filter(|i| params[*i].is_unsized() && !params[*i].is_mapped()).collect();
            if !un.is_empty() && self.c.chance(2, 3) {
                variants[0].push(Ty::Param(*self.c.pick(&un)));
            }
        }
        // predicates
        let mut preds: Vec<LP> = vec![];
        let np = self.c.draw(5);
        for _ in 0..np {
            let inline = self.c.chance(1, 2) && !tys.is_empty();
            let (ty, at) = if inline {
                let p = *self.c.pick(&tys);
                (Ty::Param(p), Some(p))
            } else if main {
                (self.pred_ty(&sized, true), None)
            } else {
                (Ty::Param(*self.c.pick(&tys)), None)
            };
            let un = matches!(ty, Ty::Param(p) if params[p].is_unsized());
            // bounds of nested types relate no two parameters
            let scope: Vec<usize> = match (&ty, main) {
                (_, true) => sized.clone(),
                (Ty::Param(p), _) => vec![*p],
                _ => vec![],
            };
            let nb = self.c.range(1, 2);
            let me = match &ty {
                Ty::Param(p) if !params[*p].is_unsized() => Some(*p),
                _ => None,
            };
            let hr = at.is_none() && matches!(ty, Ty::Param(_)) && self.c.chance(1, 5);
            let std = main && !un && matches!(ty, Ty::Param(_));
            let bounds = (0..nb)
                .map(|_| if hr { LB::K(self.c.draw(4) as u8) } else { self.bound(&scope, std, un, me) })
                .collect();
            let mut bounds: Vec<LB> = bounds;
            let outer = at.is_none() && self.c.chance(1, 5);
            if outer {
                let t = self.pred_ty(&scope, false);
                bounds.retain(|b| matches!(b, LB::HJ(..)));
                bounds.push(LB::HJ(self.c.draw(3) as u8, t));
            }
            preds.push(LP { ty, hr: hr && !outer, bounds, inline: at, outer });
        }
        if main && !sized.is_empty() && self.c.chance(1, 5) {
            let ts: Vec<Ty> = (0..self.c.draw(3)).map(|_| self.pred_ty(&sized, true)).collect();
            let r = self.pred_ty(&sized, true);
            preds.push(LP { ty: Ty::Fn(ts.clone(), Box::new(r.clone())), hr: false, bounds: vec![LB::Call(ts, r)], inline: None, outer: false });
        }
        for p in &tys {
            if params[*p].is_unsized() {
                let inline = if self.c.chance(1, 2) { Some(*p) } else { None };
                preds.push(LP { ty: Ty::Param(*p), hr: false, bounds: vec![LB::MaybeSized], inline, outer: false });
            }
        }
        // lifetimes
        for l in &lts {
            variants[0].insert(0, Ty::Ref(Lt::Param(*l), false, Box::new(Ty::Prim("u8"))));
        }
        if main && !lts.is_empty() {
            for _ in 0..self.c.draw(3) {
                let p = *self.c.pick(&tys);
                let mut ls = lts.clone();
                self.c.shuffle(&mut ls);
                ls.truncate(self.c.range(1, lts.len() as u32) as usize);
                let inline = self.c.chance(1, 2).then_some(p);
                preds.push(LP { ty: Ty::Param(p), hr: false, bounds: ls.into_iter().map(LB::Lt).collect(), inline, outer: false });
            }
        }
        // what `As` is used for
        for p in preds.clone() {
            if p.ty.any(&mut |t| matches!(t, Ty::Assoc(..))) {
                for q in &sized {
                    if p.ty.mentions(*q) {
                        preds.push(LP { ty: Ty::Param(*q), hr: false, bounds: vec![LB::As], inline: None, outer: false });
                    }
                }
            }
            for b in &p.bounds {
                if let LB::J(_, t) | LB::HJ(_, t) | LB::Form(_, t) = b {
                    if t.any(&mut |t| matches!(t, Ty::Assoc(..))) {
                        for q in &sized {
                            if t.mentions(*q) {
                                preds.push(LP { ty: Ty::Param(*q), hr: false, bounds: vec![LB::As], inline: None, outer: false });
                            }
                        }
                    }
                }
            }
        }
        // what the nested types need
        fn collect(w: &World, t: &Ty, out: &mut Vec<LP>) {
            if let Ty::User(d, args, _) = t {
                for p in &w.defs[*d].preds {
                    let bounds: Vec<LB> = p
                        .bounds
                        .iter()
                        .filter(|b| !matches!(b, LB::Lt(_)))
                        .map(|b| match b {
                            LB::J(j, x) => LB::J(*j, x.subst(args)),
                            LB::HJ(j, x) => LB::HJ(*j, x.subst(args)),
                            LB::Form(s, x) => LB::Form(s, x.subst(args)),
                            LB::Call(x, y) => LB::Call(x.iter().map(|x| x.subst(args)).collect(), y.subst(args)),
                            LB::AsX(x) => LB::AsX(x.subst(args)),
                            b => b.clone(),
                        })
                        .collect();
                    let ty = p.ty.subst(args);
                    if !bounds.is_empty() && ty.any(&mut |t| matches!(t, Ty::Param(_))) {
                        out.push(LP { ty, hr: p.hr, bounds, inline: None, outer: false });
                    } else if !bounds.is_empty() {
                        // closed: has to hold anyway
                        out.push(LP { ty, hr: p.hr, bounds, inline: Some(usize::MAX), outer: false });
                    }
                }
            }
            for c in t.children() {
                collect(w, c, out);
            }
        }
        let mut more = vec![];
        for t in variants.iter().flatten() {
            collect(self, t, &mut more);
        }
        preds.extend(more);
        if self.c.chance(1, 2) {
            self.c.shuffle(&mut preds);
        }
        let derives = match self.c.draw(if main { 5 } else { 9 }) {
            1 => (true, false),
            2 => (false, true),
            _ => (true, true),
        };
        let named = self.c.chance(1, 3);
        self.names.push(def_stub(name, &params));
        self.defs.push(BD { name: name.into(), is_enum, params, preds, variants, named, hand: None, derives });
    }

    // ---- texts

    fn lb_text(&self, b: &LB, pr: &Print) -> String {
        match b {
            LB::K(j) => format!("K{j}"),
            LB::J(j, t) => format!("J{j}<{}>", pr.ty(t)),
            LB::HJ(j, t) => format!("for<'z> J{j}<&'z {}>", pr.ty(t)),
            LB::Call(ts, r) => format!("::std::ops::Fn({}) -> {}", pr.list(ts), pr.ty(r)),
            LB::Form(s, t) => form(s, &pr.ty(t)),
            LB::As => "::vrt::As".into(),
            LB::AsX(t) => format!("::vrt::As<X = {}>", pr.ty(t)),
            LB::Ord => "::std::cmp::Ord".into(),
            LB::Hash => "::std::cmp::Eq + ::std::hash::Hash".into(),
            LB::Clone => "::std::clone::Clone".into(),
            LB::Lt(p) => pr.params[*p].name.clone(),
            LB::MaybeSized => "?Sized".into(),
        }
    }

    fn def_text(&self, d: &BD, derive: bool) -> String {
        let pr = self.pr(&d.params);
        let bs = |p: &LP| p.bounds.iter().map(|b| self.lb_text(b, &pr)).collect::<Vec<_>>().join(" + ");
        let gens: Vec<String> = d
            .params
            .iter()
            .enumerate()
            .map(|(i, q)| match &q.kind {
                PK::Lt { .. } => q.name.clone(),
                PK::Const { ty, .. } => format!("const {}: {ty}", q.name),
                PK::Ty { .. } => {
                    let b: Vec<String> = d.preds.iter().filter(|p| p.inline == Some(i)).map(bs).collect();
                    if b.is_empty() {
                        q.name.clone()
                    } else {
                        format!("{}: {}", q.name, b.join(" + "))
                    }
                }
            })
            .collect();
        let wh: Vec<String> = d
            .preds
            .iter()
            .filter(|p| p.inline.is_none())
            .map(|p| {
                let b = if p.outer { bs(p).replace("for<'z> ", "") } else { bs(p) };
                let l = if p.hr { "for<'z> &'z " } else if p.outer { "for<'z> " } else { "" };
                format!("{l}{}: {b}", pr.ty(&p.ty))
            })
            .collect();
        let wh = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
        let mut s = String::new();
        if derive {
            s += match d.derives {
                (true, true) => "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n",
                (true, false) => "#[derive(::funcmap::FuncMap)]\n",
                _ => "#[derive(::funcmap::TryFuncMap)]\n",
            };
            let all = d.params.iter().all(|q| !q.is_ty() || q.is_mapped());
            if !all {
                let l: Vec<&str> = d.params.iter().filter(|q| q.is_mapped()).map(|q| q.name.as_str()).collect();
                s += &format!("#[funcmap(params({}))]\n", l.join(", "));
            }
        }
        let body = |fs: &[Ty]| {
            if d.named {
                let l: Vec<String> = fs.iter().enumerate().map(|(i, t)| format!("f{i}: {}", pr.ty(t))).collect();
                format!(" {{ {} }}", l.join(", "))
            } else {
                let l: Vec<String> = fs.iter().map(|t| pr.ty(t)).collect();
                format!("({})", l.join(", "))
            }
        };
        let g = format!("<{}>", gens.join(", "));
        if d.is_enum {
            let vs: Vec<String> = d.variants.iter().enumerate().map(|(i, v)| format!("V{i}{}", body(v))).collect();
            s += &format!("pub enum {}{g}{wh} {{ {} }}\n", d.name, vs.join(", "));
        } else if d.named {
            s += &format!("pub struct {}{g}{wh}{}\n", d.name, body(&d.variants[0]));
        } else {
            // hand-written types have no other use for a lifetime
            let mut fs = body(&d.variants[0]);
            if d.hand.is_some() && matches!(d.params[0].kind, PK::Lt { .. }) {
                fs = fs.replacen('(', "(::std::marker::PhantomData<&'h ()>, ", 1);
            }
            s += &format!("pub struct {}{g}{fs}{wh};\n", d.name);
        }
        s
    }

    fn imp_text(&self, d: &BD, i: &Imp) -> String {
        let ks = |v: &[u8]| v.iter().map(|k| format!("K{k}")).collect::<Vec<_>>().join(" + ");
        let mut gens: Vec<String> = vec![];
        let x = [&i.only.0, &i.only.1].iter().any(|o| o.as_ref().map(|t| self.text(t).contains("'x")).unwrap_or(false));
        if x {
            gens.push("'x".into());
        }
        let (mut sa, mut da) = (vec![], vec![]);
        let mut ga = vec![];
        for (q, p) in d.params.iter().enumerate() {
            match p.kind {
                PK::Lt { .. } => {
                    gens.insert(0, "'h".into());
                    sa.push("'h".to_string());
                    da.push("'h".to_string());
                }
                PK::Const { ty, .. } => {
                    ga.push(format!("const M: {ty}"));
                    sa.push("M".into());
                    da.push("M".into());
                }
                PK::Ty { .. } if q == i.p => {
                    for (o, n, b, v) in [(&i.only.0, "Sa", &i.src, &mut sa), (&i.only.1, "Sb", &i.dst, &mut da)] {
                        match o {
                            Some(t) => v.push(self.text(t)),
                            None => {
                                ga.push(format!("{n}: {}", ks(b)));
                                v.push(n.into());
                            }
                        }
                    }
                }
                PK::Ty { .. } => {
                    ga.push(format!("O{q}: {}", ks(&i.other)));
                    sa.push(format!("O{q}"));
                    da.push(format!("O{q}"));
                }
            }
        }
        gens.extend(ga);
        let m = d.params[..i.p].iter().filter(|q| !matches!(q.kind, PK::Lt { .. })).count();
        let (a, b) = (&sa[i.p], &da[i.p]);
        let me = format!("{}<{}>", d.name, sa.join(", "));
        let right = format!("{}<{}>", d.name, da.join(", "));
        let out = match i.out {
            0 => right,
            1 => me.clone(),
            2 => format!("({right},)"),
            _ => "()".into(),
        };
        let (tr, f) = if i.fm {
            ("FuncMap", format!("fn func_map<F_>(self, f: F_) -> Self::Output where F_: ::std::ops::FnMut({a}) -> {b} {{ loop {{}} }}"))
        } else {
            ("TryFuncMap", format!("fn try_func_map<E_, F_>(self, f: F_) -> ::std::result::Result<Self::Output, E_> where F_: ::std::ops::FnMut({a}) -> ::std::result::Result<{b}, E_> {{ loop {{}} }}"))
        };
        format!(
            "impl<{}> ::funcmap::{tr}<{a}, {b}, ::funcmap::TypeParam<{m}>> for {me} {{ type Output = {out}; {f} }}\n",
            gens.join(", ")
        )
    }
}

fn make(c: &mut Src) -> CaseText {
    let caps = (0..XS.len()).map(|_| (c.chance(3, 4), c.chance(3, 4), c.chance(3, 4))).collect();
    let mut w = World { c, defs: vec![], names: vec![], caps, table: BTreeMap::new(), force: false, frozen: false, conflict: false, assoc: false, this: None, active: vec![], types: BTreeMap::new(), left: 0 };
    let nh = w.c.draw(3) as usize;
    for k in 0..nh {
        w.hand(k);
    }
    if w.c.chance(1, 2) {
        w.derived("Inner", false);
    }
    w.derived("Main", true);
    let main = w.defs.len() - 1;
    let def = w.defs[main].clone();
    // predicates of nested types without parameters
    w.force = true;
    for d in 0..w.defs.len() {
        for p in w.defs[d].preds.clone() {
            if p.inline == Some(usize::MAX) {
                for b in &p.bounds {
                    w.holds(&p.ty, p.hr, b);
                }
            }
        }
    }
    // instantiations of the definition
    let mut envs: Vec<Vec<Arg>> = vec![];
    for _ in 0..8 {
        if envs.len() == 3 {
            break;
        }
        let mut env = vec![];
        for q in &def.params {
            env.push(match q.kind {
                PK::Lt { .. } => Arg::Lt(Lt::Param(0)),
                PK::Const { .. } => Arg::Const(CArg::Val("3".into(), "3".into())),
                PK::Ty { .. } if q.is_unsized() && w.c.chance(1, 3) => {
                    Arg::Ty(w.c.pick(&[Ty::Prim("str"), Ty::Leaf("[X1]"), Ty::Leaf("(dyn ::std::fmt::Debug + 'static)")]).clone())
                }
                PK::Ty { .. } => Arg::Ty(w.leaf()),
            });
        }
        let (t, cf) = (w.table.clone(), w.conflict);
        w.conflict = false;
        let ok = w.preds_hold(main, &env) && !w.conflict;
        w.conflict = cf;
        if ok {
            envs.push(env);
        } else {
            w.table = t;
        }
    }
    w.force = false;
    let mut facts = String::new();
    let mut needs = String::new();
    let mut wf = String::new();
    let (mut yes, mut no) = (0, 0);
    for (e, env) in envs.iter().enumerate() {
        let me = w.text(&Ty::User(main, env.clone(), 1));
        wf += &format!("fn w{e}_<'x>(_: &{me}) {{}}\n");
        let n = def.params.iter().filter(|q| !matches!(q.kind, PK::Lt { .. })).count();
        for (q, a) in env.clone().iter().enumerate() {
            let Arg::Ty(src) = a else { continue };
            for k in 0..4 {
                let dst = match k {
                    0 => src.clone(),
                    3 if def.params[q].is_unsized() => Ty::Prim("str"),
                    _ => w.leaf(),
                };
                let m = def.params[..q].iter().filter(|x| !matches!(x.kind, PK::Lt { .. })).count();
                for fm in [true, false] {
                    let want = w.avail(main, q, env, &dst, fm);
                    let (s, d) = (w.text(src), w.text(&dst));
                    let tr = if fm { "FM" } else { "TFM" };
                    if def.params[q].is_mapped() {
                        if want {
                            yes += 1
                        } else {
                            no += 1
                        }
                    }
                    facts += &format!("({:?}, P_::<{me}, {s}, {d}, {m}>::{tr}, {want}),\n", format!("{tr} of {me} over {m} from {s} to {d}"));
                    if want {
                        needs += &format!("need{tr}::<{me}, {s}, {d}, {m}>();\n");
                    }
                    // another parameter's marker
                    let o = (m + 1 + k % n.max(1)) % (n + 1);
                    let other = def.params.iter().enumerate().find(|(x, y)| {
                        !matches!(y.kind, PK::Lt { .. }) && def.params[..*x].iter().filter(|z| !matches!(z.kind, PK::Lt { .. })).count() == o
                    });
                    let want = match other {
                        Some((x, _)) => matches!(&env[x], Arg::Ty(t) if w.text(t) == s) && w.avail(main, x, env, &dst, fm),
                        None => false,
                    };
                    facts += &format!("({:?}, P_::<{me}, {s}, {d}, {o}>::{tr}, {want}),\n", format!("{tr} of {me} over {o} from {s} to {d}"));
                }
            }
        }
    }
    let mut items = String::new();
    for (i, x) in XS.iter().enumerate() {
        let (o, h, cl) = w.caps[i];
        let mut ds = vec![];
        if o || h {
            ds.extend(["PartialEq", "Eq"]);
        }
        if o {
            ds.extend(["PartialOrd", "Ord"]);
        }
        if h {
            ds.push("Hash");
        }
        if cl {
            ds.push("Clone");
        }
        let body = if x.contains('<') { "(::std::marker::PhantomData<*const &'x ()>)" } else { "" };
        items += &format!("#[derive({})]\npub struct {x}{body};\n", ds.join(", "));
    }
    for j in 0..4 {
        items += &format!("pub trait K{j} {{}}\n");
    }
    for j in 0..3 {
        items += &format!("pub trait J{j}<X: ?Sized> {{}}\n");
    }
    let mut rows = 0;
    w.frozen = true;
    for ((tr, ty), v) in &w.table.clone() {
        // `Self` in predicates is only well-formed if all of them hold
        if *v && w.types[&(tr.clone(), ty.clone())].clone().iter().all(|t| w.wf(t)) {
            rows += 1;
            let all = format!("{tr} {ty}");
            let mut ls = vec![];
            for l in ["'x", "'z"] {
                if all.contains(l) {
                    ls.push(l);
                }
            }
            items += &format!("impl<{}> {tr} for {ty} {{}}\n", ls.join(", "));
        }
    }
    let mut bare = items.clone();
    let mut sample = String::new();
    for d in &w.defs {
        let derive = d.hand.is_none();
        let t = w.def_text(d, derive);
        items += &t;
        sample += &t;
        bare += &w.def_text(d, false);
        for i in d.hand.iter().flatten() {
            let t = w.imp_text(d, i);
            items += &t;
            sample += &t;
        }
    }
    items += &wf;
    bare += &wf;
    let need = "fn needFM<T_: ::funcmap::FuncMap<A_, B_, ::funcmap::TypeParam<N_>>, A_, B_, const N_: usize>() {}\nfn needTFM<T_: ::funcmap::TryFuncMap<A_, B_, ::funcmap::TypeParam<N_>>, A_, B_, const N_: usize>() {}\n";
    let module = format!(
        "{items}\nmod p_ {{ ::vrt::probe_items!(::funcmap); }}\nuse p_::{{P_, NoP_}};\n{need}fn needs_<'x>() {{\n{needs}}}\nfn facts_<'x>(cx: &mut ::vrt::eng::Cx) {{\ncx.facts(\"availability\", &[{facts}]);\n}}\npub fn run(cx: &mut ::vrt::eng::Cx) {{ needs_(); facts_(cx) }}\n"
    );
    let mut classes = vec![];
    if yes > 0 && no > 0 {
        classes.push("definition with available and unavailable instances".to_string());
    }
    if w.defs.iter().any(|d| d.hand.is_some()) && def.variants.iter().flatten().any(|t| t.any(&mut |t| matches!(t, Ty::User(d, ..) if w.defs[*d].hand.is_some()))) {
        classes.push("with nested types with hand-written implementations".into());
    }
    if def.params.iter().any(|q| q.is_unsized()) {
        classes.push("with ?Sized parameters".into());
    }
    if def.preds.iter().any(|p| p.inline.is_none()) {
        classes.push("with a where clause".into());
    }
    let this = |t: &Ty| t.any(&mut |t| matches!(t, Ty::User(_, _, 9)));
    if def.preds.iter().any(|p| this(&p.ty) || p.bounds.iter().any(|b| matches!(b, LB::J(_, x) | LB::HJ(_, x) if this(x)))) {
        classes.push("with `Self` in predicates".into());
    }
    if rows > 8 {
        classes.push("more than 8 rows in the table of trait implementations".into());
    }
    CaseText { module, bare, runs: true, nontrivial: yes > 0 && no > 0, classes, sample, ..Default::default() }
}

/// Known finding D14: an intermediate type that is not well-formed.
fn intermediate_finding(ctx: &mut Ctx, env: &Env) {
    if replay_arg().is_some() {
        return;
    }
    let tr = "pub trait J<X> {}\n";
    let inner = "pub struct Inner<T, U>(pub T, pub U) where T: J<U>;\n";
    let main = "pub struct Main<T>(pub Inner<T, T>) where T: J<T>;\n";
    let d = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n";
    let c = CaseText { module: format!("{tr}{d}{inner}{d}{main}"), bare: format!("{tr}{inner}{main}"), sample: main.into(), ..Default::default() };
    let o = run_cases(env, &[c.clone()]).remove(0);
    ctx.case(&c.sample, true);
    if o.failed() {
        ctx.finding(
            "intermediate-not-well-formed",
            "deriving on a type with a field `Inner<T, T>`, where the definition of `Inner<T, U>` demands `T: J<U>`, fails",
            &format!("{}\n{}", c.module, o.text()),
        );
    }
}

pub fn c09(ctx: &mut Ctx) -> ! {
    let mut env = Env::new(ctx, "");
    env.rounds = 1;
    campaign(ctx, &env, ctx.n(3000, 30000), "gen", &|c| make(c));
    intermediate_finding(ctx, &env);
    ctx.finish("random definitions with bounds (inline and in where clauses, on parameters and on types that mention them, with arguments that mention other parameters, higher-ranked, associated types, `?Sized`, lifetimes), nested derived types, nested types with hand-written implementations (conditional, for single arguments, with another output, missing) and unmappable types, next to a random table of trait implementations for closed types; for random instantiations, target types and markers a compile-time probe tells whether each trait is implemented, which is compared with an evaluator of the stated rule over the table. Non-trivial: both available and unavailable instances of mapped parameters occur.")
}
