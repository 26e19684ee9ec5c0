[
dict(id='s01-ssqp-pe-upper', property='S01', file='symbolicator-sources/src/paths.rs',
 edits=[("""    let debug_id = if ssqp_casing {
        format!("{:x}{:X}", debug_id.uuid().as_simple(), appendix)""", """    let debug_id = if ssqp_casing && identifier.object_type != ObjectType::Unknown {
        format!("{:x}{:X}", debug_id.uuid().as_simple(), appendix)""")],
 needs='an SSQP source and an object of unknown type whose age has letters or whose UUID has letters',
 breaks='PDB files of objects whose type is not known are looked up under the Symstore casing on SSQP servers',
 demo='''
use symbolicator_sources::*;
fn main() {
    let mut id = ObjectId::default();
    id.debug_file = Some("C:\\\\app\\\\Foo.pdb".into());
    id.debug_id = Some("3249d99d-0c40-4931-8610-f4e4fb0b6936-1f".parse().unwrap());
    let layout = DirectoryLayout { ty: DirectoryLayoutType::Ssqp, casing: FilenameCasing::Default };
    let mut bad = 0;
    for ty in [ObjectType::Pe, ObjectType::Unknown] {
        id.object_type = ty;
        let got = get_directory_paths(layout, FileType::Pdb, &id);
        println!("{ty} {got:?}");
        if got.last().map(|s| s.as_str()) != Some("foo.pdb/3249d99d0c4049318610f4e4fb0b69361F/foo.pdb") { bad = 1; }
    }
    std::process::exit(bad);
}
'''),
dict(id='s03-checksum-any', property='S03', file='symbolicator-sources/src/sources.rs',
 edits=[("if self.requires_checksum && object_id.debug_checksum.is_none() {", "if self.requires_checksum\n            && self.filetypes.contains(&filetype)\n            && object_id.debug_checksum.is_none()\n        {")],
 needs='a source that requires checksums without listing file types, and an object without a checksum',
 breaks='a source that requires checksums is asked for files without one when it does not restrict its file types',
 demo='''
use symbolicator_sources::*;
fn main() {
    let id = ObjectId::default();
    let f = SourceFilters { requires_checksum: true, ..Default::default() };
    let g = SourceFilters { requires_checksum: true, filetypes: vec![FileType::PortablePdb], ..Default::default() };
    let r = (f.is_allowed(&id, FileType::PortablePdb), g.is_allowed(&id, FileType::PortablePdb));
    println!("{r:?}");
    std::process::exit((r != (false, false)) as i32);
}
'''),
dict(id='s04-slash-only-debug', property='S04', file='symbolicator-sources/src/paths.rs',
 edits=[('''        if let Some(ref path) = object_id.debug_file {
            if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {''', '''        if let Some(ref path) = object_id.debug_file {
            if pattern.matches_with(path, GLOB_OPTIONS) {''')],
 needs='a pattern with forward slashes that only the debug file matches, given as a Windows path',
 breaks='path patterns no longer match debug files written with backslashes',
 demo='''
use symbolicator_sources::*;
fn main() {
    let mut id = ObjectId::default();
    id.code_file = Some("C:\\\\other\\\\a.exe".into());
    id.debug_file = Some("D:\\\\Build\\\\a.pdb".into());
    let pats = vec![serde_json::from_str::<Glob>("\\"d:/build/*\\"").unwrap()];
    let ok = matches_path_patterns(&id, &pats);
    println!("{ok}");
    std::process::exit(!ok as i32);
}
'''),
dict(id='s05-pdb-age', property='S05', file='symbolicator-sources/src/paths.rs',
 edits=[('''    } else if leading_fn_lower.ends_with(".pdb") {''', '''    } else if leading_fn.ends_with(".pdb") {''')],
 needs='a PDB requested through the symbol proxy with an upper case extension',
 breaks='most PDB requests of the symbol proxy resolve to an executable instead',
 demo='''
use symbolicator_sources::*;
fn main() {
    let mut bad = 0;
    for age in ["1", "1f"] {
        let (types, id) = parse_symstore_path(&format!("Crash.PDB/3249D99D0C4049318610F4E4FB0B6936{age}/crash.pdb")).unwrap();
        println!("{types:?} {id:?}");
        if types != &[FileType::Pdb][..] || id.debug_id.is_none() || id.code_id.is_some() { bad = 1; }
    }
    std::process::exit(bad);
}
'''),
dict(id='s06-index-trim', property='S06', file='symbolicator-sources/src/index.rs',
 edits=[('''        let (name, id) = entry.split_once('\\\\')?;''', '''        let (name, id) = entry.rsplit_once('\\\\')?;
        let name = name.split('\\\\').next()?;''')],
 needs='an index line whose identifier part contains a second backslash',
 breaks='an index entry with several path parts is recorded under a path that does not exist',
 demo='''
use symbolicator_sources::*;
fn main() {
    let idx = SymstoreIndex::parse_from_reader(&b"\\"a.dll\\\\5BA3\\\\x\\",\\"D\\"\\n\\"b.dll\\\\6CB4\\",\\"D\\"\\n"[..]).unwrap();
    let got: Vec<_> = idx.iter().map(String::from).collect();
    println!("{got:?}");
    std::process::exit((got != ["a.dll/5BA3\\\\x/a.dll", "b.dll/6CB4/b.dll"]) as i32);
}
'''),
dict(id='s07-prefix-clean', property='S07', file='symbolicator-sources/src/remotefile.rs',
 edits=[('''        let trimmed = prefix.trim_matches(&['/'][..]);''', '''        let trimmed = prefix.trim_matches(&['/', '.'][..]);''')],
 needs='a bucket prefix that starts or ends with a dot',
 breaks='files of buckets with a prefix such as .symbols are fetched from another key',
 demo='''
use symbolicator_sources::*;
fn main() {
    let got: Vec<_> = ["/.symbols/", "a.b", "v1."].iter().map(|p| SourceLocation::new("x/y").prefix(p)).collect();
    println!("{got:?}");
    std::process::exit((got != [".symbols/x/y", "a.b/x/y", "v1./x/y"]) as i32);
}
'''),
dict(id='s08-control-tab', property='S08', file='symbolicator-sources/src/types.rs',
 edits=[('''!basename.contains(|c: char| c.is_control())''', '''!basename.contains(|c: char| c.is_ascii_control())''')],
 needs='a file name with a control character outside of ASCII, such as U+0085',
 breaks='file names with C1 control characters are used in lookup paths',
 demo='''
use symbolicator_sources::*;
fn main() {
    let mut id = ObjectId::default();
    id.debug_id = Some("3249d99d-0c40-4931-8610-f4e4fb0b6936-1".parse().unwrap());
    let mut bad = 0;
    for f in ["C:\\\\x\\\\a\\u{7}b.pdb", "C:\\\\x\\\\a\\u{85}b.pdb"] {
        id.debug_file = Some(f.into());
        if id.validated_debug_file_basename().is_some() { bad = 1; }
        for ft in FileType::all() {
            if !get_directory_paths(DirectoryLayout::default(), *ft, &id).iter().all(|p| !p.contains(|c: char| c.is_control())) { bad = 1; }
        }
    }
    std::process::exit(bad);
}
'''),
dict(id='s11-object-name', property='S11', file='symbolicator-sources/src/types.rs',
 edits=[('''            "pe" => ObjectType::Pe,''', '''            "pe" | "pdb" => ObjectType::Pe,''')],
 needs='a request with the object type pdb', breaks='an unknown object type name is read as a Windows object instead of the unknown type',
 demo='''
use symbolicator_sources::*;
fn main() {
    let mut bad = 0;
    for n in ["pdb", "elf64", "coff", "PE", "", "wasm ", "sym"] {
        let t: ObjectType = serde_json::from_value(serde_json::Value::String(n.into())).unwrap();
        if t != ObjectType::Unknown { println!("{n} {t}"); bad = 1; }
    }
    std::process::exit(bad);
}
'''),
]
