mod ctx;
mod gen;
mod oracle;
mod p_cid;
mod p_env;
mod p_codec;
mod p_fmt;
mod p_ident;
mod p_msg;
mod p_server;
fn main() {
    let c = ctx::Ctx::new();
    let p = c.prop.clone();
    match p.as_str() {
        "C01" => p_codec::c01(c),
        "C02" => p_codec::c02(c),
        "C03" => p_codec::c03(c),
        "C04" => p_ident::c04(c),
        "C05" => p_ident::c05(c),
        "C06" => p_msg::c06(c),
        "C07" => p_msg::c07(c),
        "C08" => p_msg::c08(c),
        "C09" => p_msg::c09(c),
        "C10" => p_msg::c10(c),
        "C11" => p_msg::c11(c),
        "C12" => p_cid::c12(c),
        "C13" => p_cid::c13(c),
        "C14" => p_server::c14(c),
        "C15" => p_server::c15(c),
        "C16" => p_server::c16(c),
        "C17" => p_server::c17(c),
        "C20" => p_env::c20(c),
        "C21" => p_cid::c21(c),
        "C23" => p_fmt::c23(c),
        "C27" => p_fmt::c27(c),
        _ => { eprintln!("no search for {}", p); std::process::exit(9) }
    }
}
