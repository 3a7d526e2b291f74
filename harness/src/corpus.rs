//! Seed files (copies of small test files of the repository), loaded once.
use crate::core::Src;
use std::sync::OnceLock;

pub struct File {
    pub name: String,
    pub data: Vec<u8>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        let e = std::env::current_exe().unwrap();
        e.ancestors().nth(4).unwrap().to_string_lossy().into_owned()
    })
}

pub fn files() -> &'static [File] {
    static F: OnceLock<Vec<File>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v: Vec<File> = std::fs::read_dir(format!("{}/corpus", verif_dir()))
            .expect("corpus")
            .filter_map(|e| e.ok())
            .map(|e| File { name: e.file_name().to_string_lossy().into_owned(), data: std::fs::read(e.path()).unwrap() })
            .collect();
        v.sort_by(|a, b| (a.data.len(), &a.name).cmp(&(b.data.len(), &b.name)));
        v
    })
}

/// A seed file not larger than `max` bytes.
pub fn pick(src: &mut Src, max: usize) -> &'static File {
    let f = files();
    let n = f.iter().filter(|x| x.data.len() <= max).count();
    &f[src.usize(n)]
}
