#[path = "../../hc/src/ctx.rs"]
#[allow(dead_code)]
mod ctx;
#[path = "../../hc/src/oracle.rs"]
#[allow(dead_code)]
mod oracle;
mod p_tokio;
mod p_live;
fn main() {
    let c = ctx::Ctx::new();
    let p = c.prop.clone();
    match p.as_str() {
        "C14" => p_live::c14(c),
        "C28" => p_live::c28(c),
        "C26" => p_live::c26(c),
        "C22" | "C24" => p_live::c22(c),
        "C18" => p_tokio::c18(c),
        "C19" => p_tokio::c19(c),
        _ => { eprintln!("no search for {}", p); std::process::exit(9) }
    }
}
/// the socket file exists a moment before the server listens on it
pub fn connect(p: &std::path::Path) -> std::io::Result<std::os::unix::net::UnixStream> {
    let t = std::time::Instant::now();
    loop {
        match std::os::unix::net::UnixStream::connect(p) {
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused && t.elapsed() < std::time::Duration::from_secs(10) => std::thread::yield_now(),
            r => return r,
        }
    }
}
