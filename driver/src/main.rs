#![allow(clippy::all)]
mod ast;
mod batch;
mod emit;
mod gen;
mod hand;
mod json;
mod props_arr;
mod props_bound;
mod props_decl;
mod props_err;
mod props_feat;
mod props_fuzz;
mod props_lib;
mod props_lint;
mod props_macro;
mod props_prog;
mod props_run;
mod report;
mod util;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let mut ctx = report::Ctx::new(&prop);
    match prop.as_str() {
        "C01" => props_run::c01(&mut ctx),
        "C02" => props_run::c02(&mut ctx),
        "C03" => props_run::c03(&mut ctx),
        "C04" => props_lib::c04(&mut ctx),
        "C05" => props_lib::c05(&mut ctx),
        "C06" => props_arr::c06(&mut ctx),
        "C07" => props_run::c07(&mut ctx),
        "C08" => props_run::c08(&mut ctx),
        "C09" => props_bound::c09(&mut ctx),
        "C10" => props_prog::c10(&mut ctx),
        "C11" => props_prog::c11(&mut ctx),
        "C12" => props_err::c12(&mut ctx),
        "C13" => props_fuzz::c13(&mut ctx),
        "C14" => props_decl::c14(&mut ctx),
        "C18" => props_decl::c18(&mut ctx),
        "C20" => props_macro::c20(&mut ctx),
        "C15" => props_feat::c15(&mut ctx),
        "C16" => props_lint::c16(&mut ctx),
        "C17" => props_prog::c17(&mut ctx),
        "C22" => props_run::c22(&mut ctx),
        "C21" => props_run::c21(&mut ctx),
        "C19" => props_run::c19(&mut ctx),
        "setup" => {}
        _ => util::die("unknown property"),
    }
}
