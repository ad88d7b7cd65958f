mod gen;
mod expr;
mod constr;
mod mat;
mod prob;
mod print;
mod io;
mod ipopt;
mod model;
mod e2e;

#[global_allocator]
static A: symrt::Alloc = symrt::Alloc;

fn main() {
    symrt::main(&|name, p| match name {
        "c01_prog" => expr::c01_prog(p),
        "c01_forms" => expr::c01_forms(p),
        "c02" => expr::c02(p),
        "c04" => expr::c04(p),
        "c05" => expr::c05(p),
        "c06" => expr::c06(p),
        "c14" => mat::c14(p),
        "c15" => mat::c15(p),
        "c13" => prob::c13(p),
        "c23" => prob::c23(p),
        "c03" => constr::c03(p),
        "c07" => constr::c07(p),
        "c08" => constr::c08(p),
        "c19" => ipopt::c19(p),
        "c20" => ipopt::c20(p),
        "c21" => print::c21(p),
        "c22" => print::c22(p),
        "c22_large" => print::c22_large(p),
        "c22_model" => print::c22_model(p),
        "c16" => io::c16(p),
        "c17_large" => io::c17_large(p),
        "c17" => io::c17(p),
        "c18" => io::c18(p),
        "c09" => model::c09(p),
        "c10" => model::c10(p),
        "c11" => model::c11(p),
        "c12" => model::c12(p),
        "c25_nested" => ipopt::c25_nested(p),
        "c25" => e2e::c25(p),
        "c24" => e2e::c24(p),
        _ => panic!("unknown harness"),
    });
}
