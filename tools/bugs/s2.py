[
dict(id='s14-endpoint-ignored', property='S14', file='symbolicator-sources/src/sources/s3.rs',
 edits=[("            && self.region == other.region\n", "            && self.region.region == other.region.region\n"), ("        self.region.hash(state);\n    }\n}\n\n#[cfg", "        self.region.region.hash(state);\n    }\n}\n\n#[cfg")],
 needs='two S3 sources with the same region name and keys but different custom endpoints',
 breaks='keys of S3 sources are equal although they name different endpoints, so that one client (and its endpoint) serves both sources',
 demo='''use symbolicator_sources::*;
fn main() {
    let key = |endpoint: &str| -> S3SourceKey { serde_json::from_str(&format!(r#"{{"region": ["minio", "{endpoint}"], "access_key": "a", "secret_key": "s"}}"#)).unwrap() };
    let same = key("http://one:9000") == key("http://two:9000");
    println!("{same}");
    std::process::exit(same as i32);
}
'''),
dict(id='s02-compress-before-casing', property='S02', file='symbolicator-sources/src/paths.rs',
 edits=[("                compressed_path.pop();\n                compressed_path.push('_');\n                Some(compressed_path)", "                if compressed_path.to_ascii_lowercase().ends_with(\".pdb\") || compressed_path.ends_with('e') {\n                    compressed_path.pop();\n                    compressed_path.push('_');\n                }\n                Some(compressed_path)")],
 needs='a PE or PDB lookup path that ends neither in .pdb nor in a lower case e, such as a DLL',
 breaks='the compressed variant of DLLs and other executables is not looked for; the plain path is listed twice',
 demo='''use symbolicator_sources::*;
fn main() {
    let cfg: CommonSourceConfig = serde_json::from_str(r#"{"layout": {"type": "symstore"}}"#).unwrap();
    let id = ObjectId { code_id: Some("5ab380779000".parse().unwrap()), code_file: Some("C:/windows/kernel32.dll".into()), debug_id: None, debug_file: None, debug_checksum: None, object_type: ObjectType::Pe };
    let got: Vec<_> = SourceLocationIter::new(&cfg, &[FileType::Pe], None, &id).map(|l| l.to_string()).collect();
    println!("{got:?}");
    std::process::exit((!got.iter().any(|p| p.ends_with("kernel32.dl_"))) as i32);
}
'''),
dict(id='s09-builtin-public', property='S09', file='symbolicator-sources/src/remotefile.rs',
 edits=[("            Self::Http(ref x) => x.source.files.is_public,\n", "            Self::Http(ref x) => x.source.files.is_public || self.is_builtin(),\n")],
 needs='an HTTP source whose id starts with "sentry:" that is not declared public',
 breaks='files of a source that was never declared public are shared between projects',
 demo='''use symbolicator_sources::*;
use std::sync::Arc;
fn main() {
    let cfg: HttpSourceConfig = serde_json::from_str(r#"{"id": "sentry:project-mirror", "url": "https://example.com/", "layout": {"type": "native"}}"#).unwrap();
    let file: RemoteFile = HttpRemoteFile::new(Arc::new(cfg), SourceLocation::new("a/b")).into();
    println!("{}", file.is_public());
    std::process::exit(file.is_public() as i32);
}
'''),
dict(id='s13-dotnet-pdb', property='S13', file='symbolicator-sources/src/filetype.rs',
 edits=[("            ObjectType::Wasm => &[FileType::WasmCode, FileType::WasmDebug],\n", "            ObjectType::Wasm => &[FileType::WasmCode],\n")],
 needs='a WebAssembly module whose debug information lies in a companion file',
 breaks='the debug companion of a WebAssembly module is never looked for',
 demo='''use symbolicator_sources::*;
fn main() {
    let got = FileType::from_object_type(ObjectType::Wasm);
    println!("{got:?}");
    std::process::exit((!got.contains(&FileType::WasmDebug)) as i32);
}
'''),
dict(id='s15-id-replaces-query', property='S15', file='symbolicator-sources/src/sources/sentry.rs',
 edits=[("            url.query_pairs_mut().append_pair(\"id\", &file_id.0);\n", "            url.set_query(Some(&format!(\"id={}\", file_id.0)));\n")],
 needs='a Sentry source whose URL has a query of its own, or a file id with reserved characters',
 breaks='the query of the configured URL is lost, and reserved characters of the id change the query',
 demo='''use symbolicator_sources::*;
use std::sync::Arc;
fn main() {
    let cfg: SentrySourceConfig = serde_json::from_str(r#"{"id": "sentry:project", "url": "https://sentry.io/api/files/?region=eu", "token": "t"}"#).unwrap();
    let file = SentryRemoteFile::new(Arc::new(cfg), true, SentryFileId("1&x".into()), None);
    println!("{}", file.url());
    std::process::exit((file.url().as_str() != "https://sentry.io/api/files/?region=eu&id=1%26x") as i32);
}
'''),
dict(id='s16-builtin-substring', property='S16', file='symbolicator-sources/src/remotefile.rs',
 edits=[("        self.source_id().as_str().starts_with(\"sentry:\")\n", "        self.source_id().as_str().contains(\"sentry:\")\n")],
 needs='a custom source whose id has "sentry:" somewhere but not at its start',
 breaks='a custom source counts as a built-in one: it is reported under its own id and never put on the deny list',
 demo='''use symbolicator_sources::*;
use std::sync::Arc;
fn main() {
    let cfg: HttpSourceConfig = serde_json::from_str(r#"{"id": "my-sentry:mirror", "url": "https://example.com/", "layout": {"type": "native"}}"#).unwrap();
    let file: RemoteFile = HttpRemoteFile::new(Arc::new(cfg), SourceLocation::new("a/b")).into();
    println!("{} {}", file.is_builtin(), file.source_metric_key());
    std::process::exit((file.is_builtin() || file.source_metric_key() != "http") as i32);
}
'''),
]
