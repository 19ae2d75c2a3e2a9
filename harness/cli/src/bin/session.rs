//! Runs a session of document commands in one process: reads one JSON-free line protocol from
//! standard input (hex-encoded arguments), executes each command on one `DocumentCli`, and after
//! each prints a marker to standard output and the outcome and the whole graph to standard error.

use std::io::{BufRead, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;
use std::sync::Arc;

use clap::Parser;
use plotline::deref::{TryDeref, With};
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::prelude::{BeforeDelete, BeforeSave, Ctx, Target};
use plotline::schema::{Error, Schema};
use plotline::document::lazy::LazyDocument;
use plotline_cli::document::DocumentCli;
use plotline_cli::repository::LocalDocumentRepository;
use plotline_cli::CliCommand;

#[derive(Parser)]
struct Line {
    #[command(subcommand)]
    sub: CliCommand,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let mut args = std::env::args_os().skip(1);
    let context = PathBuf::from(args.next().unwrap());
    let extension = args.next().unwrap().into_string().unwrap();
    let marker = args.next().unwrap().into_string().unwrap();
    let veto = args.next().unwrap() == "veto";
    let repo = Arc::new(LocalDocumentRepository { context, extension });
    let mut schema: Schema<LazyDocument<LocalDocumentRepository>> = Schema::from(Graph::from_iter(repo.all()));
    if veto {
        // Documents whose id contains "veto" may be neither saved nor deleted.
        type T = Target<LazyDocument<LocalDocumentRepository>>;
        fn check(_: Ctx<LazyDocument<LocalDocumentRepository>>, t: T) -> plotline::schema::Result<()> {
            match t.with(|d| d.id().to_string_lossy().contains("veto")) {
                Some(false) => Ok(()),
                _ => Err(Error::custom("vetoed by trigger")),
            }
        }
        schema = schema.with_trigger(BeforeSave, check).with_trigger(BeforeDelete, check);
    }
    let cli = DocumentCli { schema: Arc::new(schema), document_repo: repo.clone() };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let argv: Vec<std::ffi::OsString> = line.split(' ').map(|h| std::ffi::OsString::from_vec(unhex(h))).collect();
        let out = match Line::try_parse_from(argv) {
            Err(e) => format!("parse {}", hex(e.to_string().as_bytes())),
            Ok(l) => {
                let CliCommand::Doc(cmd) = l.sub;
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cli.execute(cmd))) {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(e)) => format!("err {}", hex(format!("{e:#}").as_bytes())),
                    Err(_) => "panic".to_string(),
                }
            }
        };
        let mut so = std::io::stdout().lock();
        so.write_all(format!("{marker}\n").as_bytes()).unwrap();
        so.flush().unwrap();
        drop(so);
        let mut graph = vec![];
        for d in &*cli.schema.read() {
            let content = d.try_deref().map(|x| (hex(&x.bytes), hex(x.id().as_os_str().as_bytes())));
            graph.push(format!(
                "{}:{}:{}",
                hex(d.id().as_os_str().as_bytes()),
                content.as_ref().map(|c| c.0.as_str()).unwrap_or("-"),
                content.as_ref().map(|c| c.1.as_str()).unwrap_or("-"),
            ));
        }
        eprintln!("{marker} {out}|{}", graph.join(","));
    }
}
