//! Monitors for the web front end: exported functions, browser code, bundled server.
#![allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
mod server;
mod web;
use fw::*;

#[global_allocator]
static GLOBAL: Monitor = Monitor;

fn main() {
    drive(vec![("P31", p31 as fn(&mut Ctx))])
}
fn p31(x: &mut Ctx) {
    x.run("stream", 60, web::stream);
    x.run("stream-threads", 4, web::threads);
    x.run("exports", 120, web::exports);
    x.run("page", 4, web::page);
    server::p31(x);
}
