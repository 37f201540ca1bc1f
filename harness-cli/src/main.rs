//! Monitors for the command-line tools (sanity-check and xtask).
#![allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
mod p29;
mod p30;
use fw::*;

#[global_allocator]
static GLOBAL: Monitor = Monitor;

fn main() {
    // The same executable, under another name, stands in for the programs xtask starts.
    p30::stand_in();
    drive(vec![("P29", p29::p29 as fn(&mut Ctx)), ("P30", p30::p30)])
}
/// The directory of the tools built together with this monitor.
pub fn tool(name: &str) -> std::path::PathBuf {
    if let Ok(d) = std::env::var("KV_TOOLS") {
        return std::path::Path::new(&d).join(name);
    }
    std::env::current_exe().expect("own path").with_file_name(name)
}
/// A scratch directory of this process.
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("kverif-cli-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
