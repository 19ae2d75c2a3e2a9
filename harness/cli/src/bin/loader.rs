//! Lists a local repository and dereferences some of its documents, with an open of a file that does
//! not exist between the steps, so that a trace of the opens can be cut into them.

use std::path::PathBuf;
use std::sync::Arc;

use plotline::deref::TryDeref;
use plotline::id::Identify;
use plotline_cli::repository::LocalDocumentRepository;

fn main() {
    let mut args = std::env::args_os().skip(1);
    let context = PathBuf::from(args.next().unwrap());
    let extension = args.next().unwrap().into_string().unwrap();
    let repo = Arc::new(LocalDocumentRepository { context, extension });
    let docs: Vec<_> = repo.all().collect();
    let copies = docs.clone();
    let mark = |n: usize| {
        let _ = std::fs::File::open(format!("/verif-marker-{n}"));
    };
    mark(0);
    for (i, id) in args.map(PathBuf::from).enumerate() {
        let d = docs.iter().find(|d| d.id() == &id).unwrap_or_else(|| panic!("{id:?} is not listed"));
        assert!(d.try_deref().is_some(), "{id:?} does not load");
        mark(i + 1);
    }
    drop(copies);
    drop(docs);
}
